//! Drives dependency resolution.
use crate::server::{Req, Resp, Server};
use crate::universe::*;
use crate::util::*;
use node_maintainer::{Lockfile, NodeMaintainer, NodeMaintainerOptions};
use oro_common::CorgiManifest;
use serde_json::{json, Value};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn tree_json(lock: &Lockfile) -> Value {
    let mut out = vec![];
    for (_, n) in lock.packages() {
        let path: Vec<String> = n.path.iter().map(|x| x.to_string()).collect();
        let (p, v) = match &n.resolved {
            Some(r) if r.starts_with("http") => from_tarball_url(r),
            Some(r) => (r.clone(), vec![-1, -1, -1, -1]),
            None => ("?".into(), vec![-1, -1, -1, -1]),
        };
        let ver = n
            .version
            .as_ref()
            .map(|v| ver_parse(&v.to_string()))
            .unwrap_or_else(|| vec![-1, -1, -1, -1]);
        out.push(json!({"path": path, "p": p, "v": v, "ver": ver,
            "sri": n.integrity.as_ref().map(|i| i.to_string()).unwrap_or_default()}));
    }
    json!(out)
}

pub const RUNAWAY: usize = 2500;
pub fn runaway() -> usize { env_usize("VPH_RUNAWAY", RUNAWAY) }

pub struct Opts {
    pub concurrency: usize,
    pub locked: bool,
    pub root: Option<std::path::PathBuf>,
    pub order: Vec<String>,
    pub gated: bool,
    pub timeout: Duration,
}

pub enum Res {
    Ok(Arc<NodeMaintainer>),
    Err(String),
    Panic(String),
    Hang,
}

pub fn builder(url: &str) -> NodeMaintainerOptions {
    NodeMaintainer::builder().registry(url.parse().unwrap())
}

pub fn resolve(rend: Arc<Rendered>, root: Value, o: &Opts) -> (Res, Vec<String>) {
    let gate = if o.gated {
        Some(Gate::start(o.order.clone(), Duration::from_micros(1500)))
    } else {
        None
    };
    let faults = Arc::new(Faults(Mutex::new(vec![])));
    // A project of this size never takes this many requests: resolution is
    // going round in circles.
    let inner = handler(rend, gate.clone(), faults);
    let count = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let (c2, g2) = (count.clone(), gate.clone());
    let srv = Server::start(Arc::new(move |r: &Req| {
        if c2.fetch_add(1, std::sync::atomic::Ordering::SeqCst) >= runaway() {
            if let Some(g) = &g2 {
                g.stop();
            }
            return Resp::new(404, "{}");
        }
        inner(r)
    }));
    let url = srv.url();
    let (conc, locked, rootdir) = (o.concurrency, o.locked, o.root.clone());
    let r = guarded(o.timeout, move || {
        let mani: CorgiManifest = serde_json::from_value(root).unwrap();
        let mut b = builder(&url).concurrency(conc).locked(locked);
        if let Some(r) = rootdir {
            b = b.root(r);
        }
        async_std::task::block_on(b.resolve_manifest(mani))
    });
    let released = gate.map(|g| g.stop()).unwrap_or_default();
    drop(srv);
    if count.load(std::sync::atomic::Ordering::SeqCst) > runaway() {
        return (Res::Hang, released);
    }
    let res = match r {
        Out::Done(Ok(nm)) => Res::Ok(Arc::new(nm)),
        Out::Done(Err(e)) => Res::Err(err_class(&e)),
        Out::Panic(m) => Res::Panic(m),
        Out::Hang => Res::Hang,
    };
    (res, released)
}

pub fn err_class(e: &node_maintainer::NodeMaintainerError) -> String {
    let s = format!("{e:?}");
    let head: String = s
        .chars()
        .take_while(|c| c.is_alphanumeric() || *c == '(' || *c == '_')
        .collect();
    let head = head.trim_end_matches('(').to_string();
    head
}

/// One resolution per scenario.
pub fn run_plain(sc: Value) -> Value {
    let uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    let root: Vec<Dep> = serde_json::from_value(sc["root"].clone()).unwrap();
    let order: Vec<String> = serde_json::from_value(sc["order"].clone()).unwrap_or_default();
    let rend = Arc::new(Rendered::new(&uni));
    let o = Opts {
        concurrency: sc["conc"].as_u64().unwrap_or(50) as usize,
        locked: false,
        root: Some(Path::new("/nonexistent-vp").to_path_buf()),
        order,
        gated: sc["gated"].as_bool().unwrap_or(true),
        timeout: Duration::from_millis(env_usize("VPH_TIMEOUT_MS", 120000) as u64),
    };
    let (res, rel) = resolve(rend, manifest("root", "1.0.0", &root), &o);
    let mut out = sc.clone();
    let m = out.as_object_mut().unwrap();
    m.insert("released".into(), json!(rel.into_iter().take(200).collect::<Vec<_>>()));
    let (oc, tree) = match res {
        Res::Ok(nm) => match nm.to_lockfile() {
            Ok(l) => (["ok".to_string(), String::new()], tree_json(&l)),
            Err(e) => (["error".into(), err_class(&e)], json!([])),
        },
        Res::Err(e) => (["error".into(), e], json!([])),
        Res::Panic(e) => (["panic".into(), e], json!([])),
        Res::Hang => (["hang".into(), String::new()], json!([])),
    };
    m.insert("outcome".into(), json!(oc));
    m.insert("tree".into(), tree);
    out
}

/// Many requests of one publication history: which version does each get?
pub fn run_select(sc: Value) -> Value {
    let uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    let reqs: Vec<Dep> = serde_json::from_value(sc["reqs"].clone()).unwrap();
    let deftag = sc["deftag"].as_str().unwrap().to_string();
    let rend = Arc::new(Rendered::new(&uni));
    let srv = Server::start(handler(rend, None, Arc::new(Faults(Mutex::new(vec![])))));
    let url = srv.url();
    let r = guarded(Duration::from_secs(120), move || {
        async_std::task::block_on(async move {
            let nassun = nassun::client::NassunOpts::new()
                .registry(url.parse().unwrap())
                .default_tag(deftag)
                .build();
            let mut got = vec![];
            for d in &reqs {
                let g: V = match nassun.resolve(format!("{}@{}", d.n, spec_str(d))).await {
                    Ok(p) => match (p.resolved(), p.corgi_metadata().await) {
                        (nassun::PackageResolution::Npm { version, .. }, Ok(m)) => {
                            // what was resolved, and what that resolution's metadata describe
                            let v = ver_parse(&version.to_string());
                            let w = m.manifest.version.map(|w| ver_parse(&w.to_string()));
                            if w.as_ref() == Some(&v) { v } else { vec![-2, -2, -2, -2] }
                        }
                        _ => vec![-3, -3, -3, -3],
                    },
                    Err(_) => vec![],
                };
                got.push(g);
            }
            got
        })
    });
    let mut out = sc.clone();
    let m = out.as_object_mut().unwrap();
    let (oc, got) = match r {
        Out::Done(g) => ("ok".to_string(), json!(g)),
        Out::Panic(p) => (format!("panic {p}"), json!([])),
        Out::Hang => ("hang".into(), json!([])),
    };
    m.insert("outcome".into(), json!(oc));
    m.insert("got".into(), got);
    out
}
