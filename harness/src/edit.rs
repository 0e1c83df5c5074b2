//! `oro add` and `oro remove`.
use crate::install::copy_tree;
use crate::oro::{run, Project};
use crate::server::Server;
use crate::universe::{handler, range_str, spec_str, tarball_path, ver_parse, Dep, Fault, Faults, Rendered, Universe};
use serde_json::{json, Map, Value};
use std::path::Path;
use std::sync::{Arc, Mutex};

const KEYS: [(&str, &str); 4] = [("prod", "dependencies"), ("dev", "devDependencies"), ("opt", "optionalDependencies"), ("peer", "peerDependencies")];

fn quote(s: &str) -> String {
    Value::String(s.into()).to_string()
}

/// The way JSON.stringify does it.
fn stringify(v: &Value, ind: &str, eol: &str, depth: usize, o: &mut String) {
    let pad = |o: &mut String, d: usize| {
        o.push_str(eol);
        for _ in 0..d {
            o.push_str(ind);
        }
    };
    match v {
        Value::Array(a) if !a.is_empty() => {
            o.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                pad(o, depth + 1);
                stringify(x, ind, eol, depth + 1, o);
            }
            pad(o, depth);
            o.push(']');
        }
        Value::Object(m) if !m.is_empty() => {
            o.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                pad(o, depth + 1);
                o.push_str(&quote(k));
                o.push_str(": ");
                stringify(x, ind, eol, depth + 1, o);
            }
            pad(o, depth);
            o.push('}');
        }
        v => o.push_str(&v.to_string()),
    }
}

fn read_version(d: &Path, n: &str) -> Option<Value> {
    let t = std::fs::read_to_string(d.join("node_modules").join(n).join("package.json")).ok()?;
    let v: Value = serde_json::from_str(&t).ok()?;
    Some(json!({"n": n, "v": ver_parse(v["version"].as_str()?)}))
}

fn without_deps(v: &Value) -> String {
    let mut m = Map::new();
    for (k, x) in v.as_object().cloned().unwrap_or_default() {
        if !KEYS.iter().any(|q| q.1 == k) {
            m.insert(k, x);
        }
    }
    Value::Object(m).to_string()
}

/// The order in which there are dependency sections.
fn order(v: &Value) -> Vec<String> {
    v.as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default()
}

pub fn run_edit(scn: Value) -> Value {
    let uni: Universe = serde_json::from_value(scn["uni"].clone()).unwrap();
    let dep = |v: &Value| -> Dep {
        let mut v = v.clone();
        v["k"] = "prod".into();
        serde_json::from_value(v).unwrap()
    };
    // The manifest
    let mut m = Map::new();
    m.insert("name".into(), json!("my-project"));
    let mut secs: Vec<(String, Value)> = vec![];
    for (k, f) in KEYS {
        let mut s = Map::new();
        for e in scn["start"][k].as_array().unwrap() {
            let e = dep(e);
            s.insert(e.n.clone(), json!(spec_str(&e)));
        }
        if !s.is_empty() {
            secs.push((f.into(), Value::Object(s)));
        }
    }
    let how = scn["order"].as_u64().unwrap();
    if how == 6 {
        if !secs.iter().any(|s| s.0 == "dependencies") {
            secs.insert(0, ("dependencies".into(), json!({})));
        }
    }
    let mut others: Vec<(String, Value)> = vec![
        ("version".into(), json!("1.2.3-pre.1+build")),
        ("description".into(), json!("\"quoted\" \\ tab\there ünïcode \u{1F600} </script> \u{7f}")),
        ("zeta".into(), json!({"b": 1, "a": [1, 2.5, -0.125, 9007199254740991i64, true, null, [], {}, ["x", {"y": "z"}]], "": ""})),
        ("scripts".into(), json!({"zz": "echo 1", "build": "tsc", "aa": ""})),
        ("files".into(), json!(["b", "a"])),
    ];
    if how % 2 == 0 {
        others.reverse();
    }
    let mut left: Vec<_> = secs.into_iter().collect();
    if how % 3 == 0 {
        left.reverse();
    }
    for (i, o) in others.into_iter().enumerate() {
        if i as u64 >= how % 4 && !left.is_empty() {
            let s = left.remove(0);
            m.insert(s.0, s.1);
        }
        m.insert(o.0, o.1);
    }
    for s in left {
        m.insert(s.0, s.1);
    }
    let bad = scn["bad"].as_str().unwrap();
    match bad {
        "array" => drop(m.insert("dependencies".into(), json!([]))),
        "string" => drop(m.insert("devDependencies".into(), json!("a"))),
        "number" => {
            let s = m.entry("dependencies").or_insert_with(|| json!({}));
            s["a"] = json!(1);
        }
        _ => {}
    }
    for k in ["array", "string"] {
        if bad == k {
            for s in ["dependencies", "optionalDependencies", "devDependencies"] {
                m.insert(s.into(), if bad == "array" { json!([]) } else { json!("a") });
            }
        }
    }
    let mut start = Value::Object(m);
    if bad == "root" {
        start = json!(["a"]);
    }
    let ind = match scn["indent"].as_str().unwrap() {
        "tab" => "\t".to_string(),
        "tabs" => "\t\t".into(),
        n => " ".repeat(n.parse().unwrap()),
    };
    let eol = if scn["crlf"] == true { "\r\n" } else { "\n" };
    let render = |v: &Value| {
        let mut o = String::new();
        stringify(v, &ind, eol, 0, &mut o);
        if scn["trail"] == true {
            o.push_str(eol);
        }
        o
    };
    let odd = scn["odd"].as_str().unwrap();
    let mut text = match odd {
        "oneline" => start.to_string(),
        "blank" => render(&start).replacen('{', &format!("{{{eol}"), 1),
        "lead" => format!("{eol}{}", render(&start)),
        _ => render(&start),
    };
    if bad == "malformed" {
        text.truncate(text.len() - 3);
    }
    let p = Project::new("edit");
    let file = p.root.join("package.json");
    if bad != "missing" {
        std::fs::write(&file, &text).unwrap();
    }
    let rend = Arc::new(Rendered::new(&uni));
    let mut faults = vec![];
    for b in scn["broken"].as_array().unwrap() {
        for v in uni.vers.iter().filter(|v| b == &v.p) {
            faults.push(Fault { path: tarball_path(&v.p, &v.v), what: scn["how"].as_str().unwrap().into(), times: -1 });
        }
    }
    let server = Server::start(handler(rend, None, Arc::new(Faults(Mutex::new(faults)))));
    let url = server.url();
    let mut names: Vec<String> = vec!["a".into(), "b".into(), "@s/c".into(), "d".into(), "al".into(), "@t/al".into()];
    names.dedup();
    let mut ops = vec![];
    let all = scn["ops"].as_array().unwrap();
    for (i, o) in all.iter().enumerate() {
        let before = std::fs::read_to_string(&file).ok();
        let was: Value = before.as_deref().and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
        let mut a: Vec<String> = vec![];
        if o["op"] == "add" {
            a.push("add".into());
            for s in o["specs"].as_array().unwrap() {
                let d = dep(s);
                a.push(if d.t == "bad" {
                    d.p
                } else {
                    let r = range_str(&d);
                    let n = if d.n == d.p { d.p.clone() } else { format!("{}@npm:{}", d.n, d.p) };
                    if d.t == "none" { n } else { format!("{n}@{r}") }
                });
            }
            match (o["kind"].as_str().unwrap(), o["flag"].as_u64().unwrap()) {
                ("dev", f) => a.push(if f == 1 { "-D" } else { "--dev" }.into()),
                ("opt", 1) => a.push("-O".into()),
                ("opt", 2) => a.push("--opt".into()),
                ("opt", _) => a.push("--optional".into()),
                _ => {}
            }
            match o["prefix"].as_str().unwrap() {
                "tilde" => a.extend(["--prefix".into(), "~".into()]),
                "exact" => a.push("--prefix=".into()),
                "gte" => a.extend(["--prefix".into(), ">=".into()]),
                _ => {}
            }
        } else {
            a.push(if o["flag"] == 1 { "rm" } else { "remove" }.into());
            for (j, n) in o["names"].as_array().unwrap().iter().enumerate() {
                let n = n.as_str().unwrap();
                a.push(if o["suffix"] == true && j == 0 && !n.contains(':') && (!n.contains('/') || n.starts_with('@')) { format!("{n}@^1.0.0") } else { n.to_string() });
            }
        }
        let mode = o["mode"].as_str().unwrap();
        if mode != "full" {
            a.push(format!("--{mode}"));
        }
        if o["locked"] == true {
            a.push("--locked".into());
        }
        let common = |root: &Path, cache: &Path| -> Vec<String> {
            let mut c = vec!["--registry".to_string(), url.clone(), "--cache".into(), cache.display().to_string()];
            if scn["hoisted"] == true {
                c.push("--hoisted".into());
            }
            if scn["sub"] == true {
                c.extend(["--root".into(), root.display().to_string()]);
            }
            c
        };
        let cwd = |root: &Path| if scn["sub"] == true { p.home.clone() } else { root.to_path_buf() };
        let mut r = p.oro(&[]);
        r.args = a.iter().cloned().chain(common(&p.root, &p.cache)).collect();
        r.cwd = cwd(&p.root);
        let kill = o["kill"].as_i64().unwrap();
        if kill > 0 {
            // how many changes would there be?
            let copy = p.base.join("copy");
            let (cr, cc) = (copy.join("proj"), copy.join("cache"));
            std::fs::create_dir_all(&copy).unwrap();
            copy_tree(&p.root, &cr);
            copy_tree(&p.cache, &cc);
            let count = copy.join("n");
            let mut q = r.clone();
            q.args = a.iter().cloned().chain(common(&cr, &cc)).collect();
            q.cwd = cwd(&cr);
            q.env.extend([
                ("LD_PRELOAD".to_string(), std::env::var("VP_SHIM").expect("VP_SHIM")),
                ("VP_CRASH_ROOT".to_string(), cr.canonicalize().unwrap().display().to_string()),
                ("VP_CRASH_COUNT".to_string(), count.display().to_string()),
            ]);
            run(&q);
            let n: i64 = std::fs::read_to_string(&count).unwrap_or_default().trim().parse().unwrap_or(0);
            crate::util::rm_scratch(&copy);
            let k = (n - kill + 1).max(1);
            r.env.extend([
                ("LD_PRELOAD".to_string(), std::env::var("VP_SHIM").expect("VP_SHIM")),
                ("VP_CRASH_ROOT".to_string(), p.root.display().to_string()),
                ("VP_CRASH_AT".to_string(), k.to_string()),
            ]);
        }
        let done = run(&r);
        let after = std::fs::read_to_string(&file).ok();
        let parsed: Option<Value> = after.as_deref().and_then(|t| serde_json::from_str(t).ok());
        let now = parsed.clone().unwrap_or(Value::Null);
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("{:?}\n{:?}\n{}\n--\n{}\n==", r.args, done.class(), done.err, after.clone().unwrap_or_default());
        }
        let mut lists = json!({"prod": [], "dev": [], "opt": [], "peer": []});
        for (k, f) in KEYS {
            if let Some(s) = now[f].as_object() {
                lists[k] = s.iter().map(|(n, s)| json!({"n": n, "s": s.as_str().unwrap_or("?")})).collect();
            }
        }
        // New sections may be anywhere, but what there was stays in its order
        let had = order(&was);
        let kept: Vec<String> = order(&now).into_iter().filter(|k| had.contains(k)).collect();
        let format = match odd {
            "oneline" if before == Some(text.clone()) => true,
            "oneline" => true,
            // (blank lines needn't be kept, but the way of indenting is)
            "blank" | "lead" => after.as_deref() == Some(render(&now).as_str()) || after.as_deref().map(|t| t.replace(&format!("{eol}{eol}"), eol).trim_start().to_string()) == Some(render(&now)),
            _ => after.as_deref() == Some(render(&now).as_str()),
        };
        let mut locked = "".to_string();
        if i + 1 == all.len() && done.class() == "ok" && mode == "full" {
            let mut q = p.oro(&[]);
            q.args = ["apply".to_string(), "--locked".into()].into_iter().chain(common(&p.root, &p.cache)).collect();
            q.cwd = cwd(&p.root);
            locked = run(&q).class().to_string();
        }
        let installed: Vec<Value> = names.iter().filter_map(|n| read_version(&p.root, n)).collect();
        let mut o = o.clone();
        o["did"] = json!({"outcome": done.class(), "same": before == after, "read": parsed.is_some(), "now": lists,
            "rest": without_deps(&was) == without_deps(&now) && kept == had, "format": format, "installed": installed, "locked": locked});
        ops.push(o);
    }
    let mut out = scn.clone();
    out["ops"] = json!(ops);
    out
}
