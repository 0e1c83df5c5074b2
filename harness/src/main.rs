use vpharness::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let f: fn(serde_json::Value) -> serde_json::Value = match cmd {
        "resolve" => resolve::run_plain,
        "select" => resolve::run_select,
        "relock" => lock::run_relock,
        "npmlock" => lock::run_npmlock,
        "scripts" => scripts::run_scripts,
        "install" => install::run_install,
        "auth" => auth::run_auth,
        "config" => config::run_config,
        "creds" => creds::run_creds,
        "edit" => edit::run_edit,
        "shared" => shared::run_shared,
        "spec" => spec::run_spec,
        "view" => view::run_view,
        "stream" => stream::run_stream,
        "login" => login::run_login,
        "telemetry" => telemetry::run_telemetry,
        "shapes" => shapes::run_shapes,
        "retry" => retry::run_retry,
        "extract" => extract::run_extract,
        o => {
            eprintln!("vph: unknown command {o:?}");
            std::process::exit(2);
        }
    };
    let threads = util::env_usize("VPH_THREADS", 8);
    let out = util::par_map(util::read_ndjson(&a[2]), threads, f);
    util::write_ndjson(&a[3], &out);
}
