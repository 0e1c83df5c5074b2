pub mod auth;
pub mod config;
pub mod creds;
pub mod retry;
pub mod edit;
pub mod lock;
pub mod login;
pub mod resolve;
pub mod server;
pub mod shapes;
pub mod shared;
pub mod spec;
pub mod tgz;
pub mod universe;
pub mod util;
pub mod stream;
pub mod telemetry;
pub mod view;
pub mod extract;
pub mod install;
pub mod oro;
pub mod scripts;
