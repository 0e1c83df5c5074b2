//! Registries at several places, and who is shown which credentials.
use crate::oro::{run, Project};
use crate::server::{Handler, Req, Resp, Server};
use crate::tgz::{sha512, tgz, Ent};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::net::TcpListener;
use std::sync::{Arc, Mutex};

pub const HOSTS: [&str; 3] = ["A", "B", "C"];

/// Listeners for A and B (one address, two ports) and C (another address, the port of A).
pub fn listeners() -> Vec<TcpListener> {
    loop {
        let a = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        let b = TcpListener::bind(("127.0.0.1", 0)).unwrap();
        if let Ok(c) = TcpListener::bind(("127.0.0.2", a.local_addr().unwrap().port())) {
            return vec![a, b, c];
        }
    }
}

fn segs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}

pub fn enc(s: &str) -> String {
    s.bytes()
        .map(|b| if b.is_ascii_alphanumeric() || b"-_.~@".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") })
        .collect()
}

pub fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let (mut o, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                o.push(x);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    String::from_utf8_lossy(&o).into_owned()
}

pub fn b64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            o.push(if k <= c.len() { T[(n >> (18 - 6 * k) & 63) as usize] as char } else { '=' });
        }
    }
    o
}

/// The fields of some credentials, what they look like in a request, and what must not be seen.
pub fn credential(i: usize, kind: &str, odd: bool) -> (Vec<(String, String)>, String, Vec<String>) {
    let t = |s: String| s;
    match kind {
        "token" => {
            let tok = if odd { format!("npm_{i}/+=secret=={i}") } else { format!("tok-secret-{i}") };
            (vec![("token".into(), tok.clone())], format!("Bearer {tok}"), vec![tok])
        }
        "basic" => {
            let (u, p) = if odd { (format!("üser {i}"), format!("p:=\"w\\ secret{i}")) } else { (format!("user{i}"), format!("pass-secret-{i}")) };
            let e = b64(format!("{u}:{p}").as_bytes());
            (vec![("username".into(), u), ("password".into(), p.clone())], format!("Basic {e}"), vec![p, e])
        }
        "nopass" => {
            let u = if odd { format!("only secret {i}") } else { format!("only-secret-{i}") };
            let e = b64(format!("{u}:").as_bytes());
            (vec![("username".into(), u.clone())], format!("Basic {e}"), vec![u, e])
        }
        _ => {
            let a = if odd { t(b64(format!("old secret:{i}>>>???").as_bytes())) } else { format!("bGVnYWN5{i}secret") };
            (vec![("legacy-auth".into(), a.clone())], format!("Basic {a}"), vec![a])
        }
    }
}

pub fn kdl_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Asked {
    host: usize,
    req: Req,
    what: &'static str,
    p: usize,
    path: Vec<String>,
    hop: bool,
}

pub fn run_auth(scn: Value) -> Value {
    let mut ls = listeners();
    let ports: Vec<u16> = ls.iter().map(|l| l.local_addr().unwrap().port()).collect();
    let ips = ["127.0.0.1", "127.0.0.1", "127.0.0.2"];
    let host = move |h: &str| HOSTS.iter().position(|x| *x == h).unwrap();
    let p2 = ports.clone();
    let url = move |at: &Value, slash: bool| {
        let h = host(at["host"].as_str().unwrap());
        let path: Vec<String> = segs(&at["path"]).iter().map(|s| enc(s)).collect();
        let mut u = format!("http://{}:{}/{}", ips[h], p2[h], path.join("/"));
        if slash && !u.ends_with('/') {
            u.push('/');
        }
        if !slash && u.ends_with('/') {
            u.pop();
        }
        u
    };
    let url = Arc::new(url);
    let pkgs = scn["pkgs"].as_array().unwrap().clone();
    let name = |i: usize| match pkgs[i]["scope"].as_str().unwrap() {
        "" => format!("a{}", i + 1),
        s => format!("@{s}/a{}", i + 1),
    };
    let names: Vec<String> = (0..pkgs.len()).map(name).collect();
    let home = |scope: &str| -> Value {
        scn["scopes"].as_array().unwrap().iter().find(|s| s["scope"] == scope).map(|s| s["at"].clone()).unwrap_or(scn["default"].clone())
    };
    let tars: Vec<Vec<u8>> = names
        .iter()
        .map(|n| tgz(&[Ent::file("package/package.json", format!(r#"{{"name":"{n}","version":"1.0.0"}}"#))]))
        .collect();
    let docs: Vec<Value> = (0..pkgs.len())
        .map(|i| {
            let at = if pkgs[i]["own"] == true { home(pkgs[i]["scope"].as_str().unwrap()) } else { pkgs[i]["at"].clone() };
            let n = &names[i];
            json!({"name": n, "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": n, "version": "1.0.0",
                "dist": {"tarball": format!("{}{}/-/a-1.0.0.tgz", url(&at, true), n), "integrity": sha512(&tars[i])}}}})
        })
        .collect();
    let seen: Arc<Mutex<Vec<Asked>>> = Default::default();
    let mut servers = vec![];
    for (h, l) in ls.drain(..).enumerate() {
        let (names, tars, docs, seen, pkgs, url) = (names.clone(), tars.clone(), docs.clone(), seen.clone(), pkgs.clone(), url.clone());
        let f: Handler = Arc::new(move |r: &Req| {
            let path = r.path.split('?').next().unwrap();
            let mut hop = false;
            let mut all: Vec<String> = path.trim_start_matches('/').split('/').map(dec).collect();
            if all.first().map(|s| s == "HOP").unwrap_or(false) {
                hop = true;
                all.remove(0);
            }
            let full = all.join("/");
            let mut ans = ("other", 0, all.clone(), Resp::new(404, "{}"));
            let cut = |suffix: &str| -> Option<Vec<String>> {
                let s = format!("/{full}");
                let rest = s.strip_suffix(suffix)?;
                if rest.ends_with('/') {
                    Some(rest.split('/').filter(|x| !x.is_empty()).map(String::from).collect())
                } else {
                    None
                }
            };
            if let Some(p) = cut("-/ping") {
                ans = ("ping", 0, p, Resp::json(&json!({"ok": true})));
            }
            for (i, n) in names.iter().enumerate() {
                let redirect = |k: &str| -> Option<Resp> {
                    if hop || pkgs[i]["hop"] != k {
                        return None;
                    }
                    let mut to = pkgs[i]["to"].clone();
                    // certainly somewhere else
                    to["host"] = HOSTS[(h + 1) % 3].into();
                    let base = url(&json!({"host": to["host"], "path": []}), true);
                    let rest = if k == "meta" { n.clone() } else { format!("{n}/-/a-1.0.0.tgz") };
                    Some(Resp::new(302, "").header("location", &format!("{base}HOP/{rest}")))
                };
                if let Some(p) = cut(&format!("{n}/-/a-1.0.0.tgz")) {
                    ans = ("tar", i + 1, p, redirect("tar").unwrap_or_else(|| Resp::new(200, tars[i].clone())));
                } else if let Some(p) = cut(n) {
                    ans = ("meta", i + 1, p, redirect("meta").unwrap_or_else(|| Resp::json(&docs[i])));
                }
            }
            seen.lock().unwrap().push(Asked { host: h, req: r.clone(), what: ans.0, p: ans.1, path: ans.2, hop });
            ans.3
        });
        servers.push(Server::from_listener(l, f));
    }
    // The configuration
    let mut args: Vec<String> = vec![];
    let mut file = String::from("options {\n");
    let creds: Vec<_> = scn["creds"].as_array().unwrap().iter().enumerate()
        .map(|(i, c)| credential(i + 1, c["kind"].as_str().unwrap(), c["odd"] == true)).collect();
    let reg = url(&scn["default"], scn["slash"] == true);
    if scn["defaultIn"] == "cli" {
        args.extend(["--registry".into(), reg.clone()]);
    } else {
        file.push_str(&format!("    registry {}\n", kdl_str(&reg)));
    }
    let scopes = scn["scopes"].as_array().unwrap();
    if scn["scopesIn"] != "cli" && !scopes.is_empty() {
        file.push_str("    scoped-registries {\n");
    }
    for s in scopes {
        let n = format!("{}{}", if s["sign"] == true { "@" } else { "" }, s["scope"].as_str().unwrap());
        let u = url(&s["at"], s["slash"] == true);
        if scn["scopesIn"] == "cli" {
            args.extend(["--scoped-registry".into(), format!("{n}={u}")]);
        } else {
            file.push_str(&format!("        {} {}\n", kdl_str(&n), kdl_str(&u)));
        }
    }
    if scn["scopesIn"] != "cli" && !scopes.is_empty() {
        file.push_str("    }\n");
    }
    if scn["credsIn"] != "cli" {
        file.push_str("    auth {\n");
    }
    for (i, c) in scn["creds"].as_array().unwrap().iter().enumerate() {
        let u = url(&c["at"], c["slash"] == true);
        if scn["credsIn"] == "cli" {
            for (k, v) in &creds[i].0 {
                args.extend(["--auth".into(), format!("{{{u}}}{k}={v}")]);
            }
        } else {
            let ps: Vec<String> = creds[i].0.iter().map(|(k, v)| format!("{k}={}", kdl_str(v))).collect();
            file.push_str(&format!("        {} {}\n", kdl_str(&u), ps.join(" ")));
        }
    }
    if scn["credsIn"] != "cli" {
        file.push_str("    }\n");
    }
    file.push_str("}\n");
    let p = Project::new("auth");
    std::fs::write(p.root.join("oro.kdl"), &file).unwrap();
    let deps: serde_json::Map<String, Value> = (0..pkgs.len())
        .map(|i| {
            if pkgs[i]["alias"] == true {
                (format!("al{i}"), json!(format!("npm:{}@1.0.0", names[i])))
            } else {
                (names[i].clone(), json!("1.0.0"))
            }
        })
        .collect();
    std::fs::write(p.root.join("package.json"), json!({"name": "proj", "version": "1.0.0", "dependencies": deps}).to_string()).unwrap();
    let mut ops = vec![];
    let mut log: Vec<Value> = vec![];
    let id: HashMap<String, usize> = creds.iter().enumerate().map(|(i, c)| (c.1.clone(), i + 1)).collect();
    for (k, o) in scn["ops"].as_array().unwrap().iter().enumerate() {
        seen.lock().unwrap().clear();
        let mut a: Vec<&str> = vec![];
        match o["op"].as_str().unwrap() {
            "apply" => a.push("apply"),
            "fresh" => {
                // only the lockfile is still there
                for d in [p.root.join("node_modules"), p.cache.clone()] {
                    if d.exists() {
                        crate::util::rm_scratch(&d);
                    }
                }
                a.push("apply");
            }
            "view" => a.extend(["view", &names[o["p"].as_u64().unwrap() as usize - 1], "--json"]),
            _ => a.push("ping"),
        }
        if a[0] == "apply" && scn["hoisted"] == true {
            a.push("--hoisted");
        }
        a.extend(args.iter().map(|s| s.as_str()));
        let c = p.cache.to_string_lossy().into_owned();
        a.extend(["--cache", &c]);
        let r = run(&p.oro(&a));
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("{a:?}\n{file}\n{}", r.err);
        }
        ops.push(json!({"op": o["op"], "p": o["p"], "outcome": r.class()}));
        for q in seen.lock().unwrap().iter() {
            let hs = q.req.headers_all("authorization");
            let auth: Vec<i64> = hs.iter().map(|h| id.get(h).map(|i| *i as i64).unwrap_or(-1)).collect();
            let rest: String = q.req.headers.iter().filter(|(n, _)| !n.eq_ignore_ascii_case("authorization"))
                .map(|(n, v)| format!("{n}: {v}\n")).collect::<String>() + &dec(&q.req.path);
            let leak = creds.iter().any(|c| c.2.iter().any(|s| rest.contains(s.as_str())));
            log.push(json!({"op": k + 1, "host": HOSTS[q.host], "path": q.path, "what": q.what, "p": q.p, "hop": q.hop, "auth": auth, "leak": leak}));
        }
    }
    let mut out = scn.clone();
    out["ops"] = json!(ops);
    out["seen"] = json!(log);
    out
}
