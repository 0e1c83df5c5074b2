//! Lifecycle scripts: what runs, when, next to what, in real applies.
use crate::install::{facts, Known};
use crate::oro::*;
use crate::lock::*;
use crate::universe::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::path::Path;
use std::time::SystemTime;

/// Scripts tell the log when they start and end, and what they see of the
/// project's bins at these times.
fn body(ev: &str, how: &str, ms: u64) -> String {
    let say = |x: &str| {
        format!("echo \"{x} {ev} $(pwd -P) $(echo $(ls \"$VP_ROOT/node_modules/.bin\" 2>/dev/null))\" >> \"$VP_LOG\"; ")
    };
    let sleep = format!("sleep {}.{:03}; ", ms / 1000, ms % 1000);
    let (s, e, f) = (say("S"), say("E"), say("F"));
    match how {
        "fail" => format!("{s}{sleep}{f}exit 3"),
        "kill" => format!("{s}{sleep}{f}kill -KILL $$"),
        "nostart" => format!(": {}; {s}{e}", "x".repeat(140_000)),
        "noise" => format!("{s}{sleep}head -c 150000 /dev/zero | tr '\\0' 'o'; head -c 150000 /dev/zero | tr '\\0' 'e' >&2; printf '\\377\\376\\n'; echo; printf '\\303\\n' >&2; {e}true"),
        _ => format!("{s}{sleep}{e}true"),
    }
}

fn dress(uni: &mut Universe, how: &Value) {
    for (i, v) in uni.vers.iter_mut().enumerate() {
        for (j, s) in v.scripts.clone().iter().enumerate() {
            let h = &how[i][j];
            v.bodies.insert(s.clone(), body(s, h["how"].as_str().unwrap(), h["ms"].as_u64().unwrap()));
        }
    }
}

fn stamp(p: &Path) -> Option<(u64, SystemTime)> {
    use std::os::unix::fs::MetadataExt;
    let m = p.symlink_metadata().ok()?;
    Some((m.ino(), m.created().ok().unwrap_or(SystemTime::UNIX_EPOCH)))
}

fn read(p: &Path) -> String {
    std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default()
}

pub fn run_scripts(sc: Value) -> Value {
    let mut uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    dress(&mut uni, &sc["how"]);
    let known = Known::new(&uni);
    let reg = Registry::new(&uni);
    let pr = Project::new("scr");
    let root = pr.root.canonicalize().unwrap();
    let mut out = vec![];
    for st in sc["steps"].as_array().unwrap() {
        let deps: Vec<Dep> = serde_json::from_value(st["root"].clone()).unwrap();
        std::fs::write(root.join("package.json"), serde_json::to_string_pretty(&manifest("proj", "1.0.0", &deps)).unwrap()).unwrap();
        let log = pr.base.join("log");
        let _ = std::fs::remove_file(&log);
        let before: HashMap<String, _> = facts(&root, &known)["places"]
            .as_array()
            .unwrap()
            .iter()
            .map(|p| {
                let d = p["dir"].as_str().unwrap().to_string();
                let s = stamp(&root.join(&d));
                (d, s)
            })
            .collect();
        let mut args = vec![
            "apply".to_string(), "--registry".into(), reg.srv.url(), "--root".into(), root.display().to_string(),
            "--cache".into(), pr.cache.display().to_string(), "--concurrency".into(), st["conc"].to_string(),
            "--script-concurrency".into(), st["sconc"].to_string(), "--retries".into(), "0".into(),
        ];
        if st["mode"] == "hoisted" {
            args.push("--hoisted".into());
        }
        if st["noscripts"] == true {
            args.push("--no-scripts".into());
        }
        let mut r = pr.oro(&[]);
        r.args = args;
        r.env = vec![
            ("VP_LOG".to_string(), log.display().to_string()),
            ("VP_ROOT".to_string(), root.display().to_string()),
        ];
        let ran = crate::oro::run(&r);
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("--- {:?} {}\n{}", r.args, ran.class(), ran.err);
        }
        let mut disk = facts(&root, &known);
        let mut ids = HashMap::new();
        for p in disk["places"].as_array_mut().unwrap() {
            let d = p["dir"].as_str().unwrap().to_string();
            let now = stamp(&root.join(&d));
            let fresh = before.get(&d).map_or(true, |b| *b != now);
            ids.insert(root.join(&d).display().to_string(), p["id"].clone());
            p["fresh"] = json!(fresh);
            // only what matters here
            let o = p.as_object_mut().unwrap();
            o.remove("bins");
            o.remove("built");
        }
        let bins: Vec<String> = disk["bins"].as_array().unwrap().iter().map(|b| b["n"].as_str().unwrap().to_string()).collect();
        let events: Vec<Value> = read(&log)
            .lines()
            .map(|l| {
                let f: Vec<&str> = l.splitn(4, ' ').collect();
                let seen: Vec<&str> = f.get(3).map(|x| x.split_whitespace().collect()).unwrap_or_default();
                json!({"k": f[0], "ev": f.get(1), "id": ids.get(*f.get(2).unwrap_or(&"")).cloned().unwrap_or(json!("?")), "bins": seen})
            })
            .collect();
        let mut rec: Map<String, Value> = st.as_object().unwrap().clone();
        rec.insert("outcome".into(), json!(ran.class()));
        rec.insert("events".into(), json!(events));
        rec.insert("bins".into(), json!(bins));
        rec.insert("links".into(), disk["links"].clone());
        rec.insert("places".into(), disk["places"].clone());
        let hung = ran.class() == "hang";
        out.push(Value::Object(rec));
        if hung {
            break;
        }
    }
    json!({"uni": sc["uni"], "how": sc["how"], "steps": out})
}
