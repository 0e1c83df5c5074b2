//! What `oro view` says of packages in registries, directories and git repositories.
use crate::oro::*;
use crate::server::{Req, Resp, Server};
use crate::universe::*;
use openssl::{asn1::Asn1Time, bn::BigNum, hash::MessageDigest, pkey::PKey, rsa::Rsa, ssl::*, x509::*};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::{Arc, OnceLock};
use std::time::Duration;

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap()
}
fn ver(v: &Value) -> Vec<i64> {
    serde_json::from_value(v.clone()).unwrap()
}

fn shape(x: &str) -> (&'static str, Value) {
    match x {
        "author str" => ("author", json!("Ann <a@x.org> (https://a.org)")),
        "author obj" => ("author", json!({"name": "Ann", "email": "a@x.org", "url": "https://a.org"})),
        "author name" => ("author", json!({"name": "Ann"})),
        "repo str" => ("repository", json!("github:o/r")),
        "repo obj" => ("repository", json!({"type": "git", "url": "git+https://github.com/o/r.git", "directory": "pkgs/a"})),
        "bugs str" => ("bugs", json!("https://x.org/bugs")),
        "bugs obj" => ("bugs", json!({"url": "https://x.org/bugs", "email": "b@x.org"})),
        "man str" => ("man", json!("./man/a.1")),
        "man list" => ("man", json!(["./man/a.1", "./man/b.1"])),
        "exports str" => ("exports", json!("./index.js")),
        "exports obj" => ("exports", json!({".": {"import": "./i.mjs", "require": ["./i.cjs"]}, "./x/*": null, "./y": "./y.js"})),
        "exports list" => ("exports", json!(["./a.js", {"import": "./b.js"}])),
        "imports" => ("imports", json!({"#a": {"node": "./a.js", "default": "./b.js"}})),
        "funding" => ("funding", json!([{"type": "x", "url": "https://x.org"}])),
        "type" => ("type", json!("module")),
        "scripts" => ("scripts", json!({"test": "node t.js", "build": "make \"all\""})),
        "dev" => ("devDependencies", json!({"t": "^1.0.0", "@s/u": "latest"})),
        "peer" => ("peerDependencies", json!({"react": ">=16"})),
        "opt" => ("optionalDependencies", json!({"fsevents": "~2"})),
        "bundle" | "bundle both" => ("bundleDependencies", json!(["d00"])),
        "bundle all" => ("bundledDependencies", json!(true)),
        "engines" => ("engines", json!({"node": ">=14.0.0"})),
        "os" => ("os", json!(["linux", "!win32"])),
        "config" => ("config", json!({"port": 8080, "deep": {"a": [1, null, "x"]}})),
        "files" => ("files", json!(["lib", "*.js"])),
        "private" => ("private", json!(true)),
        "odd" => ("x-odd", json!({"a": [1, 2.5, true, "\u{e9}\n"], "b": {}})),
        "main" => ("main", json!("lib/index.js")),
        "contributors" => ("contributors", json!(["Bob", {"name": "Cy", "email": "c@x.org"}])),
        "npmUser" => ("_npmUser", json!({"name": "ann", "email": "a@x.org"})),
        "directories" => ("directories", json!({"lib": "lib", "bin": "bin"})),
        "publishConfig" => ("publishConfig", json!({"access": "public", "tag": "next"})),
        "workspaces" => ("workspaces", json!(["pkgs/*"])),
        "licenses" => ("licenses", json!([{"type": "MIT", "url": "https://x.org"}])),
        "gitHead" => ("gitHead", json!("0123abc")),
        "shrinkwrap" => ("_hasShrinkwrap", json!(false)),
        o => panic!("unknown shape {o}"),
    }
}

/// A package.json, and what isn't in it but in the registry.
fn render(m: &Value) -> Map<String, Value> {
    let mut o = Map::new();
    let mut put = |k: &str, v: Value| {
        o.insert(k.to_string(), v);
    };
    let shapes: Vec<&str> = m["shapes"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    for x in &shapes {
        if *x == "bundle both" {
            put("bundledDependencies", json!(["d00"]));
        }
        if *x == "bundle all" && (shapes.contains(&"bundle") || shapes.contains(&"bundle both")) {
            continue;
        }
        let (k, v) = shape(x);
        put(k, v);
    }
    for (k, f) in [("name", "name"), ("lic", "license"), ("desc", "description"), ("home", "homepage")] {
        if !s(m, k).is_empty() {
            put(f, m[k].clone());
        }
    }
    if !m["v"].as_array().unwrap().is_empty() {
        put("version", json!(ver_str(&ver(&m["v"]))));
    }
    if !m["kw"].as_array().unwrap().is_empty() {
        put("keywords", m["kw"].clone());
    }
    match s(m, "bin") {
        "str" => put("bin", json!("./cli.js")),
        "hash" => put("bin", json!({"one": "bin/one.js", "two": "./bin/two"})),
        "list" => put("bin", json!(["bin/three.js", "./four"])),
        _ => {}
    }
    let mut deps = Map::new();
    for i in 0..m["deps"].as_u64().unwrap() {
        deps.insert(format!("d{i:02}"), json!(format!("^1.{i}.0")));
    }
    if m["long"] == true {
        deps.insert("far".into(), json!(format!("git+https://git.example.com/{}/r.git#main", "long/".repeat(20))));
    }
    if !deps.is_empty() {
        put("dependencies", Value::Object(deps));
    }
    o
}

fn in_registry(m: &Value, tarball: &str) -> Map<String, Value> {
    let mut o = render(m);
    match s(m, "depr") {
        "" => {}
        "true" => {
            o.insert("deprecated".into(), json!(true));
        }
        "false" => {
            o.insert("deprecated".into(), json!(false));
        }
        t => {
            o.insert("deprecated".into(), json!(t));
        }
    }
    let people: Vec<Value> = m["people"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| match x.as_str().unwrap() {
            "str" => json!("Ann <a@x.org>"),
            "obj" => json!({"name": "Bob", "email": "b@x.org", "url": "https://b.org"}),
            "name" => json!({"name": "Cy"}),
            _ => json!({"name": "Di", "url": "https://d.org"}),
        })
        .collect();
    if !people.is_empty() {
        o.insert("maintainers".into(), json!(people));
    }
    let mut d = json!({"tarball": tarball, "shasum": "0123456789abcdef0123456789abcdef01234567", "fileCount": 3, "signatures": [{"keyid": "k", "sig": "s"}]});
    if m["integrity"] == true {
        d["integrity"] = json!("sha512-AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA==");
    }
    if m["size"] != 0 {
        d["unpackedSize"] = m["size"].clone();
    }
    o.insert("dist".into(), d);
    o
}

/// The same whatever the order of keys; null is the same as nothing there.
fn canon(v: &Value) -> String {
    match v {
        Value::Object(o) => {
            let b: BTreeMap<_, _> = o.iter().filter(|x| !x.1.is_null()).map(|(k, v)| (k, canon(v))).collect();
            let l: Vec<String> = b.iter().map(|(k, v)| format!("{k:?}: {v}")).collect();
            format!("{{{}}}", l.join(", "))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
fn fields(o: &Map<String, Value>) -> Value {
    let mut f = Map::new();
    for (k, v) in o {
        let k = match k.as_str() {
            "bundleDependencies" => "bundledDependencies",
            k => k,
        };
        if !v.is_null() {
            f.insert(k.to_string(), json!(canon(v)));
        }
    }
    json!(f)
}
/// As much of the dependencies as there's room for.
fn deplist(o: &Map<String, Value>) -> Vec<String> {
    let mut l: Vec<String> =
        o.get("dependencies").and_then(|d| d.as_object()).map(|d| d.iter().map(|(k, v)| format!("{k}: {}", v.as_str().unwrap())).collect()).unwrap_or_default();
    l.sort();
    l.truncate(25);
    l
}
fn published(o: &Map<String, Value>) -> Value {
    json!({"f": fields(o), "deplist": deplist(o)})
}

/// The lines meant for people, taken apart.
fn said(out: &str) -> Value {
    let mut r = json!({"head": [], "desc": "", "home": "", "depr": "", "kw": "", "bins": [], "tarball": "", "shasum": "", "sri": "", "size": "", "deplist": [], "more": "", "people": [], "other": []});
    let mut lines = out.lines();
    r["head"] = json!(lines.next().unwrap_or("").split(" | ").collect::<Vec<_>>());
    let mut part = "top";
    let mut deps: Vec<String> = vec![];
    for l in lines {
        if l.is_empty() {
            part = "";
        } else if part == "top" && l.starts_with("https://") {
            r["home"] = json!(l);
        } else if part == "top" {
            r["desc"] = json!(l);
        } else if let Some(x) = l.strip_prefix("DEPRECATED") {
            r["depr"] = json!(if x.is_empty() { "true" } else { x.trim_start() });
        } else if let Some(x) = l.strip_prefix("keywords: ") {
            r["kw"] = json!(x);
        } else if let Some(x) = l.strip_prefix("bins: ") {
            let mut b: Vec<&str> = x.split(", ").collect();
            b.sort();
            r["bins"] = json!(b);
        } else if l == "dist" || l == "dependencies:" || l == "maintainers:" {
            part = l;
        } else if let Some(x) = l.strip_prefix(".tarball: ") {
            r["tarball"] = json!(x);
        } else if let Some(x) = l.strip_prefix(".shasum: ") {
            r["shasum"] = json!(x);
        } else if let Some(x) = l.strip_prefix(".integrity: ") {
            r["sri"] = json!(x);
        } else if let Some(x) = l.strip_prefix(".unpackedSize: ") {
            r["size"] = json!(x);
        } else if part == "dependencies:" && l.starts_with("(...and") {
            r["more"] = json!(l);
        } else if part == "dependencies:" {
            deps.extend(l.split("   ").map(|x| x.trim().to_string()).filter(|x| !x.is_empty()));
        } else if part == "maintainers:" && l.starts_with('-') {
            r["people"].as_array_mut().unwrap().push(json!(l));
        } else if !l.starts_with("published ") {
            r["other"].as_array_mut().unwrap().push(json!(l));
        }
    }
    deps.sort();
    r["deplist"] = json!(deps);
    r
}

fn look(r: &Run, as_json: bool) -> Value {
    let ran = run(r);
    if std::env::var("VP_SHOW").is_ok() {
        eprintln!("--- {:?} {}\n{}\n{}", r.args, ran.class(), ran.out, ran.err);
    }
    let none = said("");
    if ran.class() != "ok" {
        return json!({"outcome": ran.class(), "name": "", "ver": "", "f": {"name": ""}, "text": none});
    }
    if !as_json {
        return json!({"outcome": "ok", "name": "", "ver": "", "f": {"name": ""}, "text": said(&ran.out)});
    }
    match serde_json::from_str::<Map<String, Value>>(&ran.out) {
        Ok(o) => json!({"outcome": "ok", "name": o.get("name").cloned().unwrap_or(json!("")), "ver": o.get("version").cloned().unwrap_or(json!("")), "f": fields(&o), "text": none}),
        Err(e) => json!({"outcome": format!("not JSON: {e}"), "name": "", "ver": "", "f": {"name": ""}, "text": none}),
    }
}

// ---- the hosts' archives

struct Trust {
    pem: Vec<u8>,
    acceptor: Arc<SslAcceptor>,
}
/// Stands in for those who vouch for the hosts.
fn trust() -> &'static Trust {
    static T: OnceLock<Trust> = OnceLock::new();
    T.get_or_init(|| {
        let key = PKey::from_rsa(Rsa::generate(2048).unwrap()).unwrap();
        let mut n = X509Name::builder().unwrap();
        n.append_entry_by_text("CN", "vp").unwrap();
        let n = n.build();
        let mut c = X509::builder().unwrap();
        c.set_version(2).unwrap();
        c.set_serial_number(&BigNum::from_u32(7).unwrap().to_asn1_integer().unwrap()).unwrap();
        c.set_subject_name(&n).unwrap();
        c.set_issuer_name(&n).unwrap();
        c.set_pubkey(&key).unwrap();
        c.set_not_before(&Asn1Time::days_from_now(0).unwrap()).unwrap();
        c.set_not_after(&Asn1Time::days_from_now(3).unwrap()).unwrap();
        c.append_extension(extension::BasicConstraints::new().critical().ca().build().unwrap()).unwrap();
        let mut san = extension::SubjectAlternativeName::new();
        for h in ["codeload.github.com", "github.com", "gist.github.com", "gitlab.com", "bitbucket.org", "bitbucket.com"] {
            san.dns(h);
        }
        let san = san.build(&c.x509v3_context(None, None)).unwrap();
        c.append_extension(san).unwrap();
        c.sign(&key, MessageDigest::sha256()).unwrap();
        let c = c.build();
        let mut a = SslAcceptor::mozilla_intermediate(SslMethod::tls()).unwrap();
        a.set_private_key(&key).unwrap();
        a.set_certificate(&c).unwrap();
        Trust { pem: c.to_pem().unwrap(), acceptor: Arc::new(a.build()) }
    })
}

fn until_blank(c: &mut impl Read) -> String {
    let (mut b, mut x) = (vec![], [0]);
    while !b.ends_with(b"\r\n\r\n") && b.len() < 16384 {
        match c.read(&mut x) {
            Ok(1) => b.push(x[0]),
            _ => break,
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

/// A proxy behind which every host serves this one archive.
struct Hosts {
    url: String,
    stop: Arc<std::sync::atomic::AtomicBool>,
    addr: std::net::SocketAddr,
}
impl Hosts {
    fn start(archive: Option<(String, Vec<u8>)>) -> Self {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let addr = l.local_addr().unwrap();
        let stop: Arc<std::sync::atomic::AtomicBool> = Default::default();
        let (st, ar) = (stop.clone(), Arc::new(archive));
        std::thread::spawn(move || {
            for c in l.incoming() {
                if st.load(std::sync::atomic::Ordering::SeqCst) {
                    return;
                }
                let (Ok(c), ar) = (c, ar.clone()) else { continue };
                std::thread::spawn(move || Self::serve(c, &ar));
            }
        });
        Hosts { url: format!("http://{addr}/"), stop, addr }
    }
    fn serve(mut c: TcpStream, ar: &Option<(String, Vec<u8>)>) {
        let _ = c.set_read_timeout(Some(Duration::from_secs(20)));
        let req = until_blank(&mut c);
        if !req.starts_with("CONNECT ") {
            let _ = c.write_all(b"HTTP/1.1 502 No\r\nContent-Length: 0\r\nConnection: close\r\n\r\n");
            return;
        }
        let _ = c.write_all(b"HTTP/1.1 200 OK\r\n\r\n");
        let Ok(mut t) = trust().acceptor.accept(c) else { return };
        let req = until_blank(&mut t);
        let path = req.split(' ').nth(1).unwrap_or("");
        let (code, body): (&str, &[u8]) = match ar {
            Some((rev, b)) if path.contains(rev.as_str()) => ("200 OK", b),
            _ => ("404 Not Found", b"no"),
        };
        let _ = t.write_all(format!("HTTP/1.1 {code}\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len()).as_bytes());
        let _ = t.write_all(body);
        let _ = t.flush();
        let _ = t.shutdown();
    }
}
impl Drop for Hosts {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
    }
}

// ---- git

fn git(dir: &Path, args: &[&str], input: &[u8]) -> Option<Vec<u8>> {
    let mut c = Command::new("git")
        .args(args)
        .current_dir(dir)
        .env("GIT_CONFIG_GLOBAL", "/dev/null")
        .env("GIT_CONFIG_SYSTEM", "/dev/null")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("git");
    let mut i = c.stdin.take().unwrap();
    let input = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = i.write_all(&input);
    });
    let o = c.wait_with_output().unwrap();
    let _ = t.join();
    o.status.success().then_some(o.stdout)
}

fn history(repo: &mut Value) -> Vec<u8> {
    let mut o: Vec<u8> = vec![];
    let who = "T <t@x.org> 1600000000 +0000";
    let file = |o: &mut Vec<u8>, p: &str, d: &[u8]| {
        o.extend(format!("M 100644 inline {p}\ndata {}\n", d.len()).into_bytes());
        o.extend(d);
        o.push(b'\n');
    };
    for (i, c) in repo["commits"].as_array().unwrap().iter().enumerate() {
        o.extend(format!("commit refs/heads/zz-all\nmark :{}\ncommitter {who}\ndata 1\nx\n", i + 1).into_bytes());
        if i > 0 {
            o.extend(format!("from :{i}\ndeleteall\n").into_bytes());
        }
        match s(c, "broken") {
            "none" => {}
            "bad" => file(&mut o, "package.json", b"{\"name\": \"p\", \"version\""),
            _ => file(&mut o, "package.json", serde_json::to_string_pretty(&render(&c["m"])).unwrap().as_bytes()),
        }
        file(&mut o, "lib/index.js", format!("// {i}\n").as_bytes());
        file(&mut o, "README.md", "read me\n".repeat(200).as_bytes());
    }
    for b in repo["branches"].as_array().unwrap() {
        o.extend(format!("reset refs/heads/{}\nfrom :{}\n\n", s(b, "n"), b["c"]).into_bytes());
    }
    for (i, t) in repo["tags"].as_array_mut().unwrap().iter_mut().enumerate() {
        if s(t, "n").is_empty() {
            t["n"] = json!(format!("{}{}", s(t, "pre"), ver_str(&ver(&t["v"]))));
        }
        if i % 2 == 0 {
            o.extend(format!("reset refs/tags/{}\nfrom :{}\n\n", s(t, "n"), t["c"]).into_bytes());
        } else {
            o.extend(format!("tag {}\nfrom :{}\ntagger {who}\ndata 1\nx\n", s(t, "n"), t["c"]).into_bytes());
        }
    }
    o
}

fn look_git(sc: &mut Value) {
    let pr = Project::new("view");
    let base = pr.base.canonicalize().unwrap();
    let rd = base.join("repo.git");
    let mut repo = sc["repo"].clone();
    git(&base, &["init", "-q", "--bare", "-b", s(&repo, "head"), "repo.git"], b"").expect("init");
    let h = history(&mut repo);
    git(&rd, &["fast-import", "--quiet", "--export-marks=marks"], &h).expect("import");
    let marks: BTreeMap<String, String> = std::fs::read_to_string(rd.join("marks"))
        .unwrap()
        .lines()
        .map(|l| l.split_once(' ').map(|(a, b)| (a[1..].to_string(), b.to_string())).unwrap())
        .collect();
    let ca = base.join("ca.pem");
    std::fs::write(&ca, &trust().pem).unwrap();
    for (j, a) in sc["asks"].as_array_mut().unwrap().iter_mut().enumerate() {
        let sel = a["sel"].clone();
        let rev = match s(&sel, "how") {
            "rev" if s(&sel, "rev").is_empty() => {
                let n = s(&repo["tags"][sel["c"].as_u64().unwrap() as usize - 1], "n").to_string();
                if n.contains('/') { "gone".into() } else { n }
            }
            "rev" => s(&sel, "rev").to_string(),
            "sha" => {
                let full = marks.get(&sel["c"].to_string()).cloned().unwrap_or("0123456789abcdef0123456789abcdef01234567".into());
                full[..sel["len"].as_u64().unwrap() as usize].to_string()
            }
            _ => String::new(),
        };
        if s(&sel, "how") == "rev" {
            a["sel"]["rev"] = json!(rev);
        }
        let tail = match s(&sel, "how") {
            "none" => String::new(),
            "semver" => format!("#semver:{}", range_str(&serde_json::from_value(sel["d"].clone()).unwrap())),
            _ => format!("#{rev}"),
        };
        let (via, host) = (s(a, "via").to_string(), if s(a, "via") == "bare" { "github".to_string() } else { s(a, "host").to_string() });
        let dom = match host.as_str() {
            "gist" => "gist.github.com",
            "bitbucket" => "bitbucket.org",
            "gitlab" => "gitlab.com",
            _ => "github.com",
        };
        let there = a["src"]["there"] == true;
        // where each way of asking leads
        let at = base.join(format!("ask{j}"));
        let mut conf = String::new();
        let short = matches!(via.as_str(), "short" | "bare");
        let mut place = |name: &str, prefixes: &[String], open: bool| {
            let d = at.join(name);
            std::fs::create_dir_all(d.join("o")).unwrap();
            if open {
                for p in ["r", "r.git", "o/r", "o/r.git"] {
                    std::os::unix::fs::symlink(&rd, d.join(p)).unwrap();
                }
            }
            conf += &format!("[url \"file://{}/\"]\n", d.display());
            for p in prefixes {
                conf += &format!("\tinsteadOf = {p}\n");
            }
        };
        let doms = if host == "bitbucket" { vec![dom, "bitbucket.com"] } else { vec![dom] };
        let pre = |f: &dyn Fn(&str) -> String| doms.iter().map(|d| f(d)).collect::<Vec<_>>();
        place("https", &pre(&|d| format!("https://{d}/")), if short { a["src"]["https"] == true } else { there });
        place("scp", &pre(&|d| format!("git@{d}:")), if short { a["src"]["ssh"] == true } else { there });
        place("ssh", &pre(&|d| format!("ssh://git@{d}/")), there);
        let x = "git.example.com";
        place("other", &[format!("https://{x}/"), format!("ssh://git@{x}/"), format!("git@{x}:"), format!("git://{x}/")], there);
        std::fs::write(base.join(format!("conf{j}")), conf).unwrap();
        let text = match via.as_str() {
            "short" => format!("{host}:o/r"),
            "bare" => "o/r".into(),
            "host https" => format!("git+https://{dom}/o/r.git"),
            "host ssh" => format!("git+ssh://git@{dom}/o/r.git"),
            "host scp" => format!("git+ssh://git@{dom}:o/r.git"),
            "file" => format!("git+file://{}", if there { rd.display().to_string() } else { base.join("none.git").display().to_string() }),
            "https" => format!("git+https://{x}/o/r.git"),
            "ssh" => format!("ssh://git@{x}/o/r.git"),
            "scp" => format!("git+ssh://git@{x}:o/r.git"),
            _ => format!("git://{x}/o/r.git"),
        };
        let text = format!("{}{text}{tail}", if s(a, "alias").is_empty() { String::new() } else { format!("{}@", s(a, "alias")) });
        let commit = (!rev.starts_with('-'))
            .then(|| {
                let g = |r: &str| git(&rd, &["rev-parse", "--verify", "-q", r], b"");
                g(&format!("refs/heads/{rev}^{{commit}}")).or_else(|| g(&format!("refs/tags/{rev}^{{commit}}"))).or_else(|| if s(&sel, "how") == "sha" { g(&format!("{rev}^{{commit}}")) } else { None })
            })
            .flatten()
            .map(|b| String::from_utf8(b).unwrap().trim().to_string());
        let archive = match (s(&a["src"], "tarball"), commit) {
            ("gone", _) | (_, None) => None,
            ("junk", _) => Some(b"hello".to_vec()),
            (how, Some(c)) => {
                let b = git(&rd, &["archive", "--format=tar.gz", "--prefix=r-0123abc/", &c], b"").unwrap();
                Some(if how == "cut" { b[..b.len() * 2 / 3].to_vec() } else { b })
            }
        };
        let hosts = Hosts::start(archive.map(|b| (rev.clone(), b)));
        let mut r = pr.oro(&["view", &text, "--root", &pr.root.display().to_string(), "--cache", &pr.cache.display().to_string(), "--retries", "0", "--proxy", "--proxy-url", &hosts.url]);
        if a["json"] == true {
            r.args.push("--json".into());
        }
        r.env = vec![
            ("GIT_CONFIG_GLOBAL".into(), base.join(format!("conf{j}")).display().to_string()),
            ("GIT_CONFIG_SYSTEM".into(), "/dev/null".into()),
            ("GIT_SSH_COMMAND".into(), "false".into()),
            ("SSL_CERT_FILE".into(), ca.display().to_string()),
        ];
        a["text"] = json!(text);
        a["got"] = look(&r, a["json"] == true);
    }
    for c in repo["commits"].as_array_mut().unwrap() {
        c["pub"] = published(&render(&c["m"]));
    }
    sc["repo"] = repo;
}

fn look_dir(sc: &mut Value) {
    let pr = Project::new("view");
    let root = pr.root.canonicalize().unwrap();
    for d in sc["dirs"].as_array_mut().unwrap() {
        let p = root.join(s(d, "at"));
        let mut m = render(&d["m"]);
        match s(d, "broken") {
            "away" => {}
            b => {
                std::fs::create_dir_all(&p).unwrap();
                match b {
                    "none" => {}
                    "bad" => std::fs::write(p.join("package.json"), "{\"name\": \"p\",").unwrap(),
                    _ => std::fs::write(p.join("package.json"), serde_json::to_string(&m).unwrap()).unwrap(),
                }
            }
        }
        d["base"] = json!(p.file_name().unwrap().to_string_lossy());
        m.entry("name").or_insert(d["base"].clone());
        d["pub"] = published(&m);
    }
    for a in sc["asks"].as_array_mut().unwrap() {
        let at = s(a, "at");
        let rel = if at.starts_with("..") { at.to_string() } else { format!("./{at}") };
        let text = match s(a, "via") {
            "abs" => root.join(at).display().to_string(),
            "file:abs" => format!("file:{}", root.join(at).display()),
            f => format!("{f}{rel}"),
        };
        let text = format!("{}{text}", if s(a, "alias").is_empty() { String::new() } else { format!("{}@", s(a, "alias")) });
        let mut r = pr.oro(&["view", &text, "--root", &root.display().to_string(), "--cache", &pr.cache.display().to_string()]);
        if a["json"] == true {
            r.args.push("--json".into());
        }
        a["text"] = json!(text);
        a["got"] = look(&r, a["json"] == true);
    }
}

fn look_registry(sc: &mut Value) {
    let pr = Project::new("view");
    let p = s(sc, "p").to_string();
    let mut doc = json!({"name": p, "versions": {}, "dist-tags": {}, "time": {}, "readme": "x"});
    for t in sc["uni"]["tags"].as_array().unwrap() {
        doc["dist-tags"][s(t, "t")] = json!(ver_str(&ver(&t["v"])));
    }
    for v in sc["uni"]["vers"].as_array_mut().unwrap() {
        let vs = ver_str(&ver(&v["v"]));
        let url = format!("https://registry.example.com/{p}/-/{vs}.tgz");
        let o = in_registry(&v["m"], &url);
        v["pub"] = published(&o);
        v["url"] = json!(url);
        doc["time"][&vs] = json!("2020-01-02T03:04:05.678Z");
        doc["versions"][vs] = Value::Object(o);
    }
    let path = format!("/{p}");
    let srv = Server::start(Arc::new(move |req: &Req| if req.path.replace("%2f", "/").replace("%2F", "/") == path { Resp::json(&doc) } else { Resp::new(404, "{}") }));
    for a in sc["asks"].as_array_mut().unwrap() {
        let d: Dep = serde_json::from_value(a["d"].clone()).unwrap();
        let r = range_str(&d);
        let want = if r.is_empty() { p.clone() } else { format!("{p}@{r}") };
        let text = if s(a, "alias").is_empty() { want } else { format!("{}@npm:{want}", s(a, "alias")) };
        let mut r = pr.oro(&["view", &text, "--root", &pr.root.display().to_string(), "--cache", &pr.cache.display().to_string(), "--registry", &srv.url()]);
        if a["json"] == true {
            r.args.push("--json".into());
        }
        a["text"] = json!(text);
        a["got"] = look(&r, a["json"] == true);
    }
}

pub fn run_view(mut sc: Value) -> Value {
    match s(&sc, "k") {
        "git" => look_git(&mut sc),
        "dir" => look_dir(&mut sc),
        _ => look_registry(&mut sc),
    }
    sc
}
