//! Options from the command line, config files and the environment.
use crate::auth::kdl_str;
use crate::oro::{run, Project};
use crate::server::{Handler, Req, Resp, Server};
use crate::tgz::{sha512, tgz, Ent};
use serde_json::{json, Value};
use std::net::TcpListener;
use std::os::unix::fs::MetadataExt;
use std::path::Path;
use std::sync::{Arc, Mutex};

const GLOBAL: [&str; 14] = [
    "root", "registry", "scoped-registries", "auth", "cache", "config", "loglevel", "quiet", "json", "emoji", "proxy", "proxy-url",
    "no-proxy-domain", "retries",
];

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}

struct Env {
    regs: Vec<String>,
    proxies: Vec<String>,
    base: std::path::PathBuf,
}

impl Env {
    /// What a value is really called.
    fn val(&self, o: &str, v: &str) -> String {
        match o {
            "registry" | "scoped-registries" => self.regs[v[1..].parse::<usize>().unwrap() - 1].clone(),
            "proxy-url" => self.proxies[v[1..].parse::<usize>().unwrap() - 1].clone(),
            "cache" | "root" => self.base.join(v).to_string_lossy().into_owned(),
            _ => v.to_string(),
        }
    }
}

fn kdl(env: &Env, src: &Value) -> String {
    let mut o = String::from("// settings\noptions {\n");
    let src = src.as_array().unwrap();
    for e in src.iter().filter(|e| s(e, "k").is_empty()) {
        let (n, v, how) = (s(e, "o"), env.val(s(e, "o"), s(e, "v")), e["how"].as_u64().unwrap());
        let flag = (v == "true" || v == "false") && n != "default-tag";
        let line = match how % 3 {
            1 if flag && v == "true" => n.to_string(),
            0 if flag => format!("{n} {}", kdl_str(&v)),
            _ if flag => format!("{n} {v}"),
            0 | 1 if n == "retries" => format!("{n} {v}"),
            _ => format!("{n} {}", kdl_str(&v)),
        };
        o.push_str(&format!("    {line}\n"));
    }
    for t in ["scoped-registries", "auth"] {
        let es: Vec<_> = src.iter().filter(|e| s(e, "o") == t).collect();
        if es.is_empty() {
            continue;
        }
        let how = es[0]["how"].as_u64().unwrap();
        if t == "auth" {
            o.push_str("    auth {\n");
            for e in es {
                let (u, v) = (kdl_str(&env.val("registry", s(e, "k"))), kdl_str(s(e, "v")));
                o.push_str(&match how % 2 {
                    0 => format!("        {u} token={v}\n"),
                    _ => format!("        {u} {{\n            token {v}\n        }}\n"),
                });
            }
            o.push_str("    }\n");
        } else if how % 3 == 0 {
            let ps: Vec<_> = es.iter().map(|e| format!("{}={}", kdl_str(s(e, "k")), kdl_str(&env.val(t, s(e, "v"))))).collect();
            o.push_str(&format!("    {t} {}\n", ps.join(" ")));
        } else {
            o.push_str(&format!("    {t} {{\n"));
            for e in es {
                o.push_str(&format!("        {} {}\n", kdl_str(s(e, "k")), kdl_str(&env.val(t, s(e, "v")))));
            }
            o.push_str("    }\n");
        }
    }
    o + "}\n"
}

fn arg(env: &Env, e: &Value) -> Vec<String> {
    let (o, v, how) = (s(e, "o"), env.val(s(e, "o"), s(e, "v")), e["how"].as_u64().unwrap());
    let val = |n: &str, v: String| if how % 2 == 0 { vec![format!("--{n}={v}")] } else { vec![format!("--{n}"), v] };
    match o {
        "auth" => val("auth", format!("{{{}}}token={}", env.val("registry", s(e, "k")), s(e, "v"))),
        "scoped-registries" => val(if how % 5 == 0 { "scoped-registries" } else { "scoped-registry" }, format!("{}={v}", s(e, "k"))),
        "default-tag" => val(o, v),
        _ if v == "true" => vec![match (o, how % 3) {
            ("quiet", 0) => "-q".into(),
            ("locked", 0) => "--frozen".into(),
            _ => format!("--{o}"),
        }],
        _ if v == "false" => vec![match (o, how % 3) {
            ("scripts", 0) => "--ignore-scripts".into(),
            _ => format!("--no-{o}"),
        }],
        _ => val(o, v),
    }
}

fn project(dir: &Path) -> Value {
    let nm = dir.join("node_modules");
    let a = nm.join("a");
    let layout = match (nm.exists(), nm.join(".oro-store").exists(), a.exists()) {
        (false, ..) => "none",
        (_, true, true) => "isolated",
        (_, false, true) => "hoisted",
        _ => "odd",
    };
    let version = std::fs::read(a.join("package.json")).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok())
        .map(|v| s(&v, "version").to_string()).unwrap_or_default();
    let lock = match std::fs::read_to_string(dir.join("package-lock.kdl")) {
        Err(_) => "none",
        Ok(t) if t.contains("@s/b") => "new",
        Ok(_) => "stale",
    };
    let links = std::fs::metadata(nm.join("@s/b/data.txt")).map(|m| m.nlink()).unwrap_or(0);
    json!({"layout": layout, "version": version, "ran": a.join("ran").exists(), "lock": lock, "links": links})
}

pub fn run_config(scn: Value) -> Value {
    let p = Project::new("config");
    let base = p.base.clone();
    let names = ["a", "@s/b", "@t/c"];
    let mut docs: Vec<(String, Value, Vec<(String, Vec<u8>)>)> = vec![];
    for n in names {
        let mut vs = serde_json::Map::new();
        let mut tars = vec![];
        for v in ["0.9.0", "1.0.0", "1.5.0", "2.0.0"] {
            let scripts = if n == "a" { json!({"postinstall": "echo > ran"}) } else { json!({}) };
            let m = json!({"name": n, "version": v, "scripts": scripts});
            let t = tgz(&[Ent::file("package/package.json", m.to_string()), Ent::file("package/data.txt", format!("data of {n}"))]);
            let mut m2 = m.clone();
            m2["hasInstallScript"] = json!(n == "a");
            m2["dist"] = json!({"tarball": format!("BASE{n}/-/{v}.tgz"), "integrity": sha512(&t)});
            vs.insert(v.into(), m2);
            tars.push((format!("{n}/-/{v}.tgz"), t));
        }
        docs.push((n.into(), json!({"name": n, "versions": vs, "dist-tags": {"latest": "1.0.0", "beta": "2.0.0", "old": "0.9.0", "true": "1.5.0"}}), tars));
    }
    let docs = Arc::new(docs);
    let seen: Arc<Mutex<Vec<Value>>> = Default::default();
    let hosts = ["127.0.0.1", "127.0.0.2", "localhost"];
    let ips = ["127.0.0.1", "127.0.0.2", "127.0.0.1"];
    let ls: Vec<TcpListener> = ips.iter().map(|i| TcpListener::bind((*i, 0)).unwrap()).collect();
    let regs: Vec<String> = ls.iter().zip(hosts).map(|(l, h)| format!("http://{h}:{}/", l.local_addr().unwrap().port())).collect();
    let down = scn["down"] == true;
    let answer = {
        let (docs, seen, regs) = (docs.clone(), seen.clone(), regs.clone());
        move |r: &Req, here: usize, via: &str| -> Resp {
            // as a proxy sees it, or as a registry does
            let (reg, rest) = if via.is_empty() {
                (here, r.path.trim_start_matches('/').to_string())
            } else {
                match regs.iter().position(|u| r.path.starts_with(u.as_str())) {
                    Some(i) => (i, r.path[regs[i].len()..].to_string()),
                    None => (9, r.path.clone()),
                }
            };
            let rest = crate::auth::dec(rest.split('?').next().unwrap());
            let mut what = "other".to_string();
            let mut ans = Resp::new(404, "{}");
            if rest == "-/ping" {
                what = "ping".into();
                ans = if down { Resp::new(503, "down") } else { Resp::json(&json!({"pinged": true})) };
            }
            for (n, d, tars) in docs.iter() {
                if rest == *n {
                    what = n.clone();
                    ans = Resp::new(200, d.to_string().replace("BASE", regs.get(reg).map(|s| s.as_str()).unwrap_or("")));
                }
                for (t, b) in tars {
                    if rest == *t {
                        what = "tar".into();
                        ans = Resp::new(200, b.clone());
                    }
                }
            }
            let auth: Vec<String> = r.headers_all("authorization").iter().map(|h| h.trim_start_matches("Bearer ").to_string()).collect();
            seen.lock().unwrap().push(json!({"what": what, "reg": format!("R{}", reg + 1), "via": via, "auth": auth}));
            ans
        }
    };
    let answer = Arc::new(answer);
    let mut servers = vec![];
    for (i, l) in ls.into_iter().enumerate() {
        let a = answer.clone();
        let f: Handler = Arc::new(move |r: &Req| a(r, i, ""));
        servers.push(Server::from_listener(l, f));
    }
    let mut proxies = vec![];
    for i in 1..=2 {
        let a = answer.clone();
        let f: Handler = Arc::new(move |r: &Req| a(r, 9, &format!("X{i}")));
        let sv = Server::start(f);
        proxies.push(format!("http://{}", sv.addr));
        servers.push(sv);
    }
    let env = Env { regs, proxies, base: base.clone() };
    let deps = json!({"a": "*", "@s/b": "*", "@t/c": "1.0.0"});
    let mut at = base.join("away");
    std::fs::create_dir_all(&at).unwrap();
    for d in ["p1", "p2"] {
        let dir = base.join(d);
        std::fs::create_dir_all(dir.join("src/deep")).unwrap();
        std::fs::write(dir.join("package.json"), json!({"name": d, "version": "1.0.0", "dependencies": deps}).to_string()).unwrap();
        if scn["stale"] == true {
            std::fs::write(dir.join("package-lock.kdl"), format!("lockfile-version 1\nroot \"{d}\" {{\n    version \"1.0.0\"\n}}\n")).unwrap();
        }
        if !scn["proj"][d].as_array().unwrap().is_empty() {
            std::fs::write(dir.join("oro.kdl"), kdl(&env, &scn["proj"][d])).unwrap();
        }
        if s(&scn, "at") == d {
            at = if scn["deep"] == true { dir.join("src/deep") } else { dir };
        }
    }
    let cfg = base.join("home/cfg/orogene");
    std::fs::create_dir_all(&cfg).unwrap();
    if !scn["glob"].as_array().unwrap().is_empty() {
        std::fs::write(cfg.join("oro.kdl"), kdl(&env, &scn["glob"])).unwrap();
    }
    let cmd = s(&scn, "cmd");
    let (mut before, mut after): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let cli = scn["cli"].as_array().unwrap();
    let side = |o: &str, how: u64| {
        // entries of a table stay together
        let how = cli.iter().find(|e| s(e, "o") == o && !s(e, "k").is_empty()).map(|e| e["how"].as_u64().unwrap()).unwrap_or(how);
        GLOBAL.contains(&o) && how % 4 > 1
    };
    for e in cli {
        if side(s(e, "o"), e["how"].as_u64().unwrap()) { &mut before } else { &mut after }.extend(arg(&env, e));
    }
    if scn["useConf"] == true {
        let f = base.join("named.kdl");
        std::fs::write(&f, kdl(&env, &scn["conf"])).unwrap();
        if scn["deep"] == true { &mut before } else { &mut after }.extend(["--config".into(), f.to_string_lossy().into_owned()]);
    }
    let mut args = before;
    args.push(cmd.to_string());
    let last: &[&str] = match (cmd, scn["dashes"] == true) {
        ("view", true) => &["--", "a"],
        ("view", false) => &["a"],
        (_, true) => &["--"],
        _ => &[],
    };
    if cmd == "view" && scn["deep"] == true && scn["dashes"] != true {
        args.push("a".into());
        args.extend(after);
    } else {
        args.extend(after);
        args.extend(last.iter().map(|s| s.to_string()));
    }
    let mut r = p.oro(&args.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    r.cwd = at;
    let xdg = |d: &str| base.join("home").join(d).to_string_lossy().into_owned();
    r.env = vec![("XDG_CONFIG_HOME".into(), xdg("cfg")), ("XDG_CACHE_HOME".into(), xdg("cch"))];
    if !s(&scn, "nop").is_empty() {
        r.env.push(("NO_PROXY".into(), s(&scn, "nop").into()));
    }
    for e in scn["env"].as_array().unwrap() {
        let how = e["how"].as_u64().unwrap();
        let mut n = format!("oro_config_{}", s(e, "o"));
        if how % 3 != 0 {
            n = n.replace('-', "_");
        }
        if how % 2 == 1 {
            n = n.to_uppercase();
        }
        r.env.push((n, env.val(s(e, "o"), s(e, "v"))));
    }
    let ran = run(&r);
    if std::env::var("VP_SHOW").is_ok() {
        eprintln!("{:?}\n{:?}\n{}", r.args, r.env, ran.err);
    }
    let used = |d: &Path| d.read_dir().map(|mut i| i.next().is_some()).unwrap_or(false);
    let mut caches: Vec<&str> = ["K1", "K2", "K3"].into_iter().filter(|k| used(&base.join(k))).collect();
    if used(&base.join("home/cch")) {
        caches.push("default");
    }
    let all = format!("{}\n{}", ran.out, ran.err);
    let mut out = scn.clone();
    let said = !all.trim().is_empty();
    let version = ["0.9.0", "1.0.0", "1.5.0", "2.0.0"].into_iter().find(|v| ran.out.contains(&format!("a@{v}")) || ran.out.contains(&format!("\"version\": \"{v}\""))).unwrap_or("");
    let seen: Vec<Value> = seen.lock().unwrap().clone();
    out["links"] = json!(links());
    out["did"] = json!({
        "outcome": ran.class(),
        "seen": seen,
        "caches": caches,
        "p1": project(&base.join("p1")),
        "p2": project(&base.join("p2")),
        "json": ran.out.contains("\"registry\": ") || ran.out.contains("\"_id\": ") || ran.out.contains("\"dist\": "),
        "pong": all.contains("pong"),
        "emoji": all.contains('➡') || all.contains('⬅'),
        "said": said,
        "version": version,
    });
    out
}

/// Whether files of packages are linked to the cache, where nothing is said about it.
fn links() -> bool {
    static L: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *L.get_or_init(|| {
        let d = crate::util::scratch("links");
        let t = Arc::new(tgz(&[Ent::file("package/package.json", r#"{"name":"a","version":"1.0.0"}"#), Ent::file("package/data.txt", "data")]));
        let i = sha512(&t);
        let sv = Server::start(Arc::new(move |r: &Req| {
            if r.path.ends_with("tgz") {
                return Resp::shared(200, t.clone());
            }
            let h = r.header("host").unwrap_or("").to_string();
            Resp::json(&json!({"name": "a", "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": "a", "version": "1.0.0",
                "dist": {"tarball": format!("http://{h}/a/-/1.0.0.tgz"), "integrity": i}}}}))
        }));
        let p = Project::new("links");
        std::fs::write(p.root.join("package.json"), r#"{"name":"p","version":"1.0.0","dependencies":{"a":"*"}}"#).unwrap();
        let c = p.cache.to_string_lossy().into_owned();
        run(&p.oro(&["apply", "--registry", &sv.url(), "--cache", &c]));
        let n = std::fs::metadata(p.root.join("node_modules/a/data.txt")).map(|m| m.nlink()).unwrap_or(0);
        crate::util::rm_scratch(&d);
        n > 1
    })
}
