//! Logging in and out, and what's in the config file afterwards.
use crate::auth::{b64, dec, enc, kdl_str, listeners, HOSTS};
use crate::oro::{run, Project};
use crate::server::{Handler, Req, Resp, Server};
use kdl::{KdlDocument, KdlNode};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

/// The fields of some credentials, and what they look like in a request.
fn credential(i: usize, kind: &str, odd: bool) -> (Vec<(String, String)>, String) {
    match (kind, odd) {
        ("token", true) => {
            let t = match i % 5 {
                0 => format!("npm_{i}/+=secret=={i}"),
                1 => format!("x?y#z{i}"),
                2 => format!("../../up{i}"),
                3 => format!("a%2Fb%41 {i}"),
                _ => format!("-/whoami\"\\{i}"),
            };
            (vec![("token".into(), t.clone())], format!("Bearer {t}"))
        }
        ("token", _) => (vec![("token".into(), format!("tok-{i}"))], format!("Bearer tok-{i}")),
        ("basic", _) => {
            let (u, p) = if odd { (format!("üser {i}"), format!("p:=\"w\\ {i}")) } else { (format!("user{i}"), format!("pass{i}")) };
            let e = b64(format!("{u}:{p}").as_bytes());
            (vec![("username".into(), u), ("password".into(), p)], format!("Basic {e}"))
        }
        ("nopass", _) => {
            let u = if odd { format!("only \"{i}") } else { format!("only{i}") };
            let e = b64(format!("{u}:").as_bytes());
            (vec![("username".into(), u)], format!("Basic {e}"))
        }
        _ => {
            let a = b64(format!("old{i}{}", if odd { ">>>???" } else { "x" }).as_bytes());
            (vec![("legacy-auth".into(), a.clone())], format!("Basic {a}"))
        }
    }
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}

/// What a node says, in either form: (name, value) pairs.
fn fields(n: &KdlNode) -> Vec<(String, String)> {
    let mut o: Vec<(String, String)> = n
        .entries()
        .iter()
        .map(|e| {
            let v = e.value().as_string().map(String::from).unwrap_or_else(|| e.value().to_string());
            (e.name().map(|x| x.value().to_string()).unwrap_or_default(), v)
        })
        .collect();
    if let Some(c) = n.children() {
        for k in c.nodes() {
            for f in fields(k) {
                o.push((k.name().value().to_string(), f.1));
            }
        }
    }
    o.sort();
    o
}

fn place(ports: &[u16], u: &str) -> Value {
    let ips = ["127.0.0.1", "127.0.0.1", "127.0.0.2"];
    if let Ok(u) = url::Url::parse(u) {
        for h in 0..3 {
            if u.host_str() == Some(ips[h]) && u.port() == Some(ports[h]) {
                let path: Vec<String> = u.path().split('/').filter(|s| !s.is_empty()).map(dec).collect();
                return json!({"host": HOSTS[h], "path": path});
            }
        }
    }
    json!({"host": "?", "path": [u]})
}

pub fn run_creds(scn: Value) -> Value {
    let ls = listeners();
    let ports: Vec<u16> = ls.iter().map(|l| l.local_addr().unwrap().port()).collect();
    let ips = ["127.0.0.1", "127.0.0.1", "127.0.0.2"];
    let url = |at: &Value, slash: bool| {
        let h = HOSTS.iter().position(|x| *x == at["host"].as_str().unwrap()).unwrap();
        let path: Vec<String> = strs(&at["path"]).iter().map(|s| enc(s)).collect();
        let u = format!("http://{}:{}/{}", ips[h], ports[h], path.join("/"));
        let u = u.trim_end_matches('/').to_string();
        if slash { u + "/" } else { u }
    };
    // All there are and will be
    let start = scn["creds"].as_array().unwrap();
    let todo = scn["ops"].as_array().unwrap();
    let creds: Vec<_> = start.iter().chain(todo.iter()).enumerate()
        .map(|(i, c)| credential(i + 1, c["kind"].as_str().unwrap(), c["odd"] == true)).collect();
    let who = |f: &[(String, String)]| creds.iter().position(|c| {
        let mut a = c.0.clone();
        a.sort();
        a == f
    }).map(|i| i as i64 + 1).unwrap_or(-1);
    // Servers
    let seen: Arc<Mutex<Vec<(usize, Req)>>> = Default::default();
    let gone: Arc<Mutex<bool>> = Default::default();
    let mut servers = vec![];
    for (h, l) in ls.into_iter().enumerate() {
        let (seen, gone) = (seen.clone(), gone.clone());
        let f: Handler = Arc::new(move |r: &Req| {
            let resp = if r.method == "DELETE" {
                if *gone.lock().unwrap() { Resp::new(404, "{}") } else { Resp::json(&json!({"ok": true})) }
            } else if r.path.contains("/-/ping") {
                Resp::json(&json!({}))
            } else {
                let n = dec(&r.path);
                let n = match n.find("/@") { Some(i) => &n[i + 1..], None => n.rsplit('/').next().unwrap() };
                Resp::json(&json!({"name": n, "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": n, "version": "1.0.0",
                    "dist": {"tarball": "http://127.0.0.1:1/x.tgz", "integrity": "sha512-AAAA"}}}}))
            };
            seen.lock().unwrap().push((h, r.clone()));
            resp
        });
        servers.push(Server::from_listener(l, f));
    }
    // The file
    let style = scn["style"].as_u64().unwrap();
    let text = match scn["file"].as_str().unwrap() {
        "none" => None,
        "empty" => Some(match style {
            1 => "".to_string(),
            2 => "// nothing at all\n".into(),
            3 => "options {\n}\n".into(),
            _ => "options\n".into(),
        }),
        kind => {
            let mut blocks: Vec<String> = vec![];
            blocks.push("    // KEEP-1: not too much\n    loglevel \"warn\"\n".into());
            if kind == "full" {
                let mut s = String::from("    auth {\n");
                for (i, c) in start.iter().enumerate() {
                    let u = kdl_str(&url(&c["at"], c["slash"] == true));
                    let f = &creds[i].0;
                    if c["nested"] == true {
                        s += &format!("        {u} {{\n");
                        for (k, v) in f {
                            s += &format!("            {k} {}\n", kdl_str(v));
                        }
                        s += "        }\n";
                    } else {
                        let f: Vec<String> = f.iter().map(|(k, v)| format!("{k}={}", kdl_str(v))).collect();
                        s += &format!("        {u} {}\n", f.join(" "));
                    }
                    if i == 0 && scn["junk"] == true {
                        s += "        \"https://elsewhere.example/x\" colour=\"red\"\n";
                    }
                }
                if start.is_empty() && scn["junk"] == true {
                    s += "        \"https://elsewhere.example/x\" colour=\"red\"\n";
                }
                blocks.push(s + "    }\n");
                let scopes = scn["scopes"].as_array().unwrap();
                let n = |s: &Value| kdl_str(&format!("{}{}", if s["sign"] == true { "@" } else { "" }, s["scope"].as_str().unwrap()));
                if scn["props"] == true && !scopes.is_empty() {
                    let ps: Vec<String> = scopes.iter().map(|s| format!("{}={}", n(s), kdl_str(&url(&s["at"], style % 2 == 0)))).collect();
                    blocks.push(format!("    scoped-registries {}\n", ps.join(" ")));
                } else if !scopes.is_empty() {
                    let mut s = String::from("    scoped-registries {\n");
                    for x in scopes {
                        s += &format!("        {} {}\n", n(x), kdl_str(&url(&x["at"], style % 2 == 0)));
                    }
                    blocks.push(s + "    }\n");
                }
            }
            blocks.push("    fancy {\n        // KEEP-2\n        thing 1 2.5 on=true\n    }\n".into());
            if style % 2 == 0 {
                blocks.reverse();
            }
            let o = format!("options {{\n{}}}\n", blocks.concat());
            Some(match style {
                1 => o,
                2 => format!("// KEEP-3\nelse \"x\"\n{o}"),
                3 => format!("{o}\n/* KEEP-4 */ project {{ auth {{ \"x\" token=\"y\"; }}; }}\n"),
                _ => o.replace("    ", "\t"),
            })
        }
    };
    let p = Project::new("creds");
    let named = scn["named"] == true;
    let file = if named { p.base.join("some where").join("mine.kdl") } else { p.home.join(".config/orogene/oro.kdl") };
    if let Some(t) = &text {
        std::fs::create_dir_all(file.parent().unwrap()).unwrap();
        std::fs::write(&file, t).unwrap();
    }
    // Everything that isn't about credentials
    let rest = |d: &KdlDocument, raw: &str| -> Vec<String> {
        let mut o: Vec<String> = vec![];
        let norm = |n: &KdlNode| {
            let mut n = n.clone();
            n.fmt();
            n.to_string().trim().to_string()
        };
        for n in d.nodes() {
            if n.name().value() == "options" {
                for m in n.children().map(|c| c.nodes()).unwrap_or(&[]) {
                    if !["auth", "scoped-registries"].contains(&m.name().value()) {
                        o.push(format!("options {}", norm(m)));
                    }
                }
            } else {
                o.push(norm(n));
            }
        }
        o.sort();
        for i in 1..5 {
            if raw.contains(&format!("KEEP-{i}")) {
                o.push(format!("KEEP-{i}"));
            }
        }
        o
    };
    let before = text.as_ref().map(|t| rest(&t.parse().unwrap(), t)).unwrap_or_default();
    let mut ops = vec![];
    for (i, o) in todo.iter().enumerate() {
        seen.lock().unwrap().clear();
        *gone.lock().unwrap() = o["gone"] == true;
        let reg = url(&o["at"], o["slash"] == true);
        let scope = o["scope"].as_str().unwrap();
        let mut a: Vec<String> = vec![];
        match o["op"].as_str().unwrap() {
            "login" => {
                a.push("login".into());
                for (k, v) in &creds[start.len() + i].0 {
                    a.push(format!("--{}={v}", if k == "legacy-auth" { "legacy-token" } else { k }));
                }
                if !scope.is_empty() {
                    a.extend(["--scope".into(), format!("{}{scope}", if o["sign"] == true { "@" } else { "" })]);
                }
            }
            "logout" => a.push("logout".into()),
            "view" => a.extend(["view".into(), if scope.is_empty() { "pkg".into() } else { format!("@{scope}/pkg") }, "--json".into()]),
            _ => a.push("ping".into()),
        }
        if named {
            a.extend(["--config".into(), file.to_string_lossy().into_owned()]);
        }
        a.extend(["--cache".into(), p.base.join(format!("cache{i}")).to_string_lossy().into_owned()]);
        let mut r = p.oro(&[]);
        if o["regIn"] == "env" {
            r.env.push(("oro_config_registry".into(), reg.clone()));
        } else {
            a.extend(["--registry".into(), reg.clone()]);
        }
        r.args = a.clone();
        let r = run(&r);
        let raw = std::fs::read_to_string(&file).unwrap_or_default();
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("{a:?} {reg}\n{}\n--\n{raw}\n==", r.err);
        }
        let mut did = json!({"outcome": r.class(), "junk": false, "rest": false});
        let (mut cs, mut ss) = (vec![], vec![]);
        if let Ok(d) = raw.parse::<KdlDocument>() {
            did["rest"] = json!(rest(&d, &raw) == before);
            let node = |n: &str| -> Vec<KdlNode> {
                d.nodes().iter().filter(|x| x.name().value() == "options")
                    .flat_map(|x| x.children().map(|c| c.nodes().to_vec()).unwrap_or_default())
                    .filter(|x| x.name().value() == n).collect()
            };
            for a in node("auth") {
                for c in a.children().map(|c| c.nodes()).unwrap_or(&[]) {
                    if c.name().value() == "https://elsewhere.example/x" {
                        did["junk"] = json!(fields(c) == [("colour".to_string(), "red".to_string())]);
                        continue;
                    }
                    cs.push(json!({"at": place(&ports, c.name().value()), "cred": who(&fields(c))}));
                }
            }
            for a in node("scoped-registries") {
                for (n, u) in fields(&a) {
                    ss.push(json!({"scope": n.strip_prefix('@').unwrap_or(&n), "at": place(&ports, &u)}));
                }
            }
        }
        did["creds"] = json!(cs);
        did["scopes"] = json!(ss);
        let mut sn = vec![];
        for (h, q) in seen.lock().unwrap().iter() {
            let auth: Vec<i64> = q.headers_all("authorization").iter()
                .map(|v| creds.iter().position(|c| &c.1 == v).map(|i| i as i64 + 1).unwrap_or(-1)).collect();
            let path = if q.method == "DELETE" { q.path.as_str() } else { q.path.split('?').next().unwrap() };
            let segs: Vec<String> = path.trim_start_matches('/').split('/').map(String::from).collect();
            let cut = |n: usize| -> Value {
                let k = segs.len().saturating_sub(n);
                json!({"host": HOSTS[*h], "path": segs[..k].iter().map(|s| dec(s)).collect::<Vec<_>>()})
            };
            let mut e = json!({"what": "other", "at": cut(0), "auth": auth, "cred": 0});
            if q.method == "DELETE" {
                let n = segs.iter().position(|s| s == "-").map(|k| segs.len() - k).unwrap_or(0);
                let tok = if n == 4 && !q.path.contains('?') && segs[segs.len() - 3] == "user" && segs[segs.len() - 2] == "token" { dec(&segs[segs.len() - 1]) } else { "/".into() };
                e["what"] = "revoke".into();
                e["at"] = cut(n);
                e["cred"] = json!(who(&[("token".to_string(), tok)]));
            } else if path.ends_with("/-/ping") {
                e["what"] = "ping".into();
                e["at"] = cut(2);
            } else if q.method == "GET" && dec(path).ends_with("pkg") {
                e["what"] = "meta".into();
                e["at"] = cut(if dec(path).contains('@') && !path.to_lowercase().contains("%2f") { 2 } else { 1 });
            }
            sn.push(e);
        }
        did["seen"] = json!(sn);
        let mut o = o.clone();
        o["did"] = did;
        ops.push(o);
    }
    let mut out = scn.clone();
    out["ops"] = json!(ops);
    out
}
