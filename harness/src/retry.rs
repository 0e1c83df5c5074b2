//! Requests that fail, and how often they're made.
use crate::oro::{run, Project};
use crate::server::{Handler, Mode, Req, Resp, Server};
use crate::tgz::{sha512, tgz, Ent};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn faults(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

pub fn run_retry(scn: Value) -> Value {
    let cmd = scn["cmd"].as_str().unwrap().to_string();
    let pkgs = scn["pkgs"].as_array().unwrap().clone();
    let tars: Vec<Vec<u8>> = (1..=pkgs.len())
        .map(|i| tgz(&[Ent::file("package/package.json", format!(r#"{{"name":"a{i}","version":"1.0.0"}}"#))]))
        .collect();
    let counts: Arc<Mutex<HashMap<String, usize>>> = Default::default();
    let calm = Arc::new(std::sync::atomic::AtomicBool::new(cmd == "frozen"));
    let f: Handler = {
        let (counts, calm, pkgs, tars, cmd, ping) = (counts.clone(), calm.clone(), pkgs.clone(), tars.clone(), cmd.clone(), faults(&scn["ping"]));
        Arc::new(move |r: &Req| {
            let host = r.header("host").unwrap_or("").to_string();
            let path = r.path.split('?').next().unwrap().trim_start_matches('/').to_string();
            let full = !r.header("accept").unwrap_or("").contains("vnd.npm");
            let (key, plan, good) = if path == "-/ping" {
                ("ping".to_string(), ping.clone(), Resp::json(&json!({"ok": true})))
            } else if let Some(i) = path.strip_prefix('a').and_then(|s| s.split('/').next()).and_then(|s| s.parse::<usize>().ok()) {
                if path.ends_with(".tgz") {
                    (format!("tar{i}"), faults(&pkgs[i - 1]["tar"]), Resp::new(200, tars[i - 1].clone()))
                } else {
                    let d = json!({"name": format!("a{i}"), "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": format!("a{i}"), "version": "1.0.0",
                        "dist": {"tarball": format!("http://{host}/a{i}/-/a.tgz"), "integrity": sha512(&tars[i - 1])}}}});
                    if full && cmd == "view" {
                        (format!("tar{i}"), faults(&pkgs[i - 1]["tar"]), Resp::json(&d))
                    } else {
                        (format!("{}{i}", if full { "full" } else { "meta" }), faults(&pkgs[i - 1]["meta"]), Resp::json(&d))
                    }
                }
            } else {
                return Resp::new(404, "{}");
            };
            if calm.load(std::sync::atomic::Ordering::SeqCst) {
                return good;
            }
            let n = {
                let mut c = counts.lock().unwrap();
                let n = c.entry(key).or_insert(0);
                *n += 1;
                *n
            };
            match plan.get(n - 1).map(|s| s.as_str()) {
                None => good,
                Some("close") => Resp::new(200, "").mode(Mode::Close),
                Some("junk") => Resp::new(200, "<html>captive portal</html>"),
                Some(s) => Resp::new(s.parse().unwrap(), format!("{{\"error\":\"{s}\"}}")),
            }
        })
    };
    let sv = Server::start(f);
    let p = Project::new("retry");
    let deps: serde_json::Map<String, Value> = (1..=pkgs.len()).map(|i| (format!("a{i}"), json!("^1.0.0"))).collect();
    std::fs::write(p.root.join("package.json"), json!({"name": "proj", "version": "1.0.0", "dependencies": deps}).to_string()).unwrap();
    let limit = scn["limit"].to_string();
    let mut args: Vec<String> = match cmd.as_str() {
        "view" => vec!["view".into(), "a1".into()],
        "ping" => vec!["ping".into()],
        _ => vec!["apply".into()],
    };
    args.extend(["--registry".into(), sv.url()]);
    match scn["how"].as_str().unwrap() {
        "cli" => args.extend(["--retries".into(), limit]),
        "file" => std::fs::write(p.root.join("oro.kdl"), format!("options {{\n  retries {limit}\n}}\n")).unwrap(),
        _ => {}
    }
    let go = |cache: &str| {
        let mut a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let c = p.base.join(cache).to_string_lossy().into_owned();
        if scn["cache"] == true || cache == "first" {
            a.extend(["--cache", &c]);
        } else {
            a.push("--no-cache");
        }
        let mut r = p.oro(&a);
        r.limit = Some(Duration::from_secs(120));
        let x = run(&r);
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("{:?}\n{}", r.args, x.err);
        }
        x
    };
    if cmd == "frozen" {
        // The lockfile knows where everything is.
        go("first");
        crate::util::rm_scratch(&p.root.join("node_modules"));
        calm.store(false, std::sync::atomic::Ordering::SeqCst);
    }
    let ran = go("cache");
    let c = counts.lock().unwrap();
    let n = |k: String| c.get(&k).copied().unwrap_or(0);
    let mut out = scn.clone();
    out["did"] = json!({
        "outcome": ran.class(),
        "ping": n("ping".into()),
        "meta": (1..=pkgs.len()).map(|i| n(format!("meta{i}"))).collect::<Vec<_>>(),
        "full": (1..=pkgs.len()).map(|i| n(format!("full{i}"))).collect::<Vec<_>>(),
        "tar": (1..=pkgs.len()).map(|i| n(format!("tar{i}"))).collect::<Vec<_>>(),
    });
    out
}
