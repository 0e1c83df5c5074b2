//! Packages with all sorts of tarballs, installed in all sorts of ways.
use crate::oro::Project;
use crate::server::*;
use crate::tgz::*;
use crate::util::*;
use nassun::{ExtractMode, NassunOpts, PackageResolution};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

fn seg(s: &str) -> String {
    match s {
        "LONG" => "l".repeat(55),
        "UTF8" => "snö-雪".into(),
        "NEIGHBOUR" => "p2".into(),
        o => o.into(),
    }
}
fn unseg(s: &str) -> String {
    if s == "l".repeat(55) {
        "LONG".into()
    } else if s == "snö-雪" {
        "UTF8".into()
    } else {
        s.into()
    }
}
fn join(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|s| seg(s.as_str().unwrap())).collect::<Vec<_>>().join("/")
}

fn content(c: i64) -> Vec<u8> {
    match c {
        // larger than what's held in memory, and not compressible
        7 => {
            let mut x: u64 = 88172645463325252;
            (0..5_600_000)
                .map(|_| {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    x as u8
                })
                .collect()
        }
        6 => vec![],
        c => format!("content {c}\n").repeat(if c == 5 { 3000 } else { 1 }).into_bytes(),
    }
}

fn manifest_of(p: &Value) -> Value {
    let mut m = json!({"name": p["name"], "version": "1.0.0", "vp": p["id"]});
    let bins = p["bins"].as_array().unwrap();
    if !bins.is_empty() {
        match p["form"].as_str().unwrap() {
            "hash" => {
                let mut o = serde_json::Map::new();
                for b in bins {
                    o.insert(b["n"].as_str().unwrap().into(), json!(join(&b["path"])));
                }
                m["bin"] = Value::Object(o);
            }
            "str" => m["bin"] = json!(join(&bins[0]["path"])),
            "array" => m["bin"] = bins.iter().map(|b| json!(join(&b["path"]))).collect(),
            _ => m["directories"] = json!({"bin": "bin"}),
        }
    }
    let sc = p["scripts"].as_array().unwrap();
    if !sc.is_empty() {
        m["scripts"] = Value::Object(sc.iter().map(|s| (s.as_str().unwrap().to_string(), json!("true"))).collect());
    }
    m
}

fn tarball_of(p: &Value, base: &Path) -> Vec<u8> {
    let ents: Vec<Ent> = p["ents"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let (top, rest) = (e["top"].as_str().unwrap(), join(&e["path"]));
            // Absolute names and targets lead to where it does no harm.
            let abs = base.join("w/x").to_string_lossy().into_owned();
            let path = match (top, rest.is_empty()) {
                ("", _) => format!("{abs}/{rest}"),
                (_, true) => top.to_string(),
                _ => format!("{top}/{rest}"),
            };
            let link = e["link"].as_str().unwrap();
            let m = e["mode"].as_u64().unwrap();
            Ent {
                path,
                data: if e["cont"] == 0 { manifest_of(p).to_string().into_bytes() } else { content(e["cont"].as_i64().unwrap()) },
                mode: u32::from_str_radix(&m.to_string(), 8).unwrap(),
                kind: match e["kind"].as_str().unwrap() {
                    "file" => b'0',
                    "dir" => b'5',
                    "symlink" => b'2',
                    _ => b'1',
                },
                link: if link == "/" { abs } else { link.into() },
            }
        })
        .collect();
    gz(&tar_bytes(
        &ents,
        match p["long"].as_str().unwrap() {
            "pax" => LongNames::Pax,
            "gnu" => LongNames::Gnu,
            _ => LongNames::Prefix,
        },
    ))
}

fn sri(a: ssri::Algorithm, d: &[u8]) -> String {
    ssri::IntegrityOpts::new().algorithm(a).chain(d).result().to_string()
}

fn dist_of(p: &Value, url: &str, data: &[u8]) -> Value {
    let mut d = json!({ "tarball": url });
    let shasum = ssri::Integrity::from_hex(ssri::Integrity::to_hex(&sha1(data).parse().unwrap()).1, ssri::Algorithm::Sha1).unwrap().to_hex().1;
    match p["integ"].as_str().unwrap() {
        "sha512" => d["integrity"] = json!(sha512(data)),
        "sha1" => d["integrity"] = json!(sha1(data)),
        "sha256" => d["integrity"] = json!(sri(ssri::Algorithm::Sha256, data)),
        "shasum" => d["shasum"] = json!(shasum),
        "both" => {
            d["integrity"] = json!(sha512(data));
            d["shasum"] = json!(shasum);
        }
        "bothbad1" => d["integrity"] = json!(format!("{} {}", sha1(b"something else"), sha512(data))),
        "many" => d["integrity"] = json!(format!("{} {}", sri(ssri::Algorithm::Sha256, data), sha512(data))),
        _ => {}
    }
    d
}

/// What's below a directory: kind, content and permissions.
fn full(dir: &Path, skip: &[&Path]) -> BTreeMap<String, String> {
    fn go(base: &Path, d: &Path, skip: &[&Path], out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if skip.contains(&p.as_path()) {
                continue;
            }
            let Ok(m) = p.symlink_metadata() else { continue };
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if m.is_symlink() {
                out.insert(rel, format!("link {:?}", std::fs::read_link(&p).ok()));
            } else if m.is_dir() {
                out.insert(rel, format!("dir {:o}", m.permissions().mode() & 0o7777));
                go(base, &p, skip, out);
            } else {
                let b = std::fs::read(&p).unwrap_or_default();
                out.insert(rel, format!("file {:o} {}", m.permissions().mode() & 0o7777, ssri::Integrity::from(&b)));
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, skip, &mut out);
    out
}

fn inodes(dir: &Path) -> HashSet<(u64, u64)> {
    walkdir::WalkDir::new(dir)
        .into_iter()
        .flatten()
        .filter(|e| e.file_type().is_file())
        .filter_map(|e| e.metadata().ok())
        .map(|m| (m.dev(), m.ino()))
        .collect()
}

struct Conts(HashMap<Vec<u8>, i64>);
impl Conts {
    fn new(pkgs: &[Value]) -> Self {
        let mut m = HashMap::new();
        for c in 1..=7 {
            m.insert(content(c), c);
        }
        for p in pkgs {
            // manifests are told apart by the package they're of
            m.insert(manifest_of(p).to_string().into_bytes(), -10 - p["id"].as_i64().unwrap());
        }
        Conts(m)
    }
    fn id(&self, data: &[u8], me: i64) -> i64 {
        match self.0.get(data) {
            Some(x) if *x == -10 - me => 0,
            Some(x) => *x,
            None => -1,
        }
    }
}

/// The files of an installed package.
fn files(dir: &Path, known: &Conts, me: i64, cached: &HashSet<(u64, u64)>, links: bool) -> Vec<Value> {
    let mut out: Vec<(String, Value)> = vec![];
    for e in walkdir::WalkDir::new(dir).into_iter().flatten() {
        let rel = e.path().strip_prefix(dir).unwrap();
        if e.file_type().is_dir() || (links && e.file_type().is_symlink()) {
            continue;
        }
        let path: Vec<String> = rel.iter().map(|s| unseg(&s.to_string_lossy())).collect();
        if e.file_type().is_symlink() {
            out.push((rel.display().to_string(), json!({"path": path, "cont": -2, "exec": false, "read": false, "shared": false})));
            continue;
        }
        let m = e.metadata().unwrap();
        let data = std::fs::read(e.path()).unwrap_or_default();
        out.push((
            rel.display().to_string(),
            json!({"path": path, "cont": known.id(&data, me), "exec": m.permissions().mode() & 0o100 != 0,
                   "read": m.permissions().mode() & 0o004 != 0, "shared": cached.contains(&(m.dev(), m.ino())), "mode": format!("{:o}", m.permissions().mode() & 0o7777)}),
        ));
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out.into_iter().map(|x| x.1).collect()
}

fn hurt(f: &Path, how: &str) {
    let _ = std::fs::set_permissions(f, std::fs::Permissions::from_mode(0o644));
    let mut d = std::fs::read(f).unwrap_or_default();
    match how {
        "delete" => {
            let _ = std::fs::remove_file(f);
            return;
        }
        "empty" => d.clear(),
        "truncate" => d.truncate(d.len() / 2),
        "append" => d.extend_from_slice(b"more"),
        "overwrite" => d = b"something else entirely\n".to_vec(),
        _ => {
            let n = d.len() / 2;
            if n < d.len() {
                d[n] ^= 0x41;
            }
        }
    }
    // as it is done to what's already there: not atomically, and in place
    use std::io::Write;
    let mut o = std::fs::OpenOptions::new().write(true).truncate(true).open(f).unwrap();
    o.write_all(&d).unwrap();
}

fn all_files(d: &Path) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = walkdir::WalkDir::new(d).into_iter().flatten().filter(|e| e.file_type().is_file()).map(|e| e.into_path()).collect();
    v.sort();
    v
}

/// What the registry serves for a tarball, and where it breaks off.
fn bad(serve: &str, good: &[u8], other: &[u8]) -> (Vec<u8>, Option<usize>) {
    let mut d = good.to_vec();
    let n = d.len();
    match serve.strip_prefix("swap-").unwrap_or(serve) {
        "good" => {}
        "flip" => d[n / 2] ^= 0x10,
        "trunc" => return (d, Some(n / 2)),
        "cut" => d.truncate(n * 2 / 3),
        "empty" => d.clear(),
        "stuffed" => d.extend_from_slice(b"stuffing"),
        "html" => d = b"<html>Please log in</html>".to_vec(),
        _ => d = other.to_vec(),
    }
    (d, None)
}

pub fn run_extract(sc: Value) -> Value {
    // nothing relative to the working directory gets anywhere either
    static CWD: std::sync::Once = std::sync::Once::new();
    CWD.call_once(|| {
        let d = scratch_base().join("cwd/a/b/c/d/e");
        std::fs::create_dir_all(&d).unwrap();
        std::env::set_current_dir(d).unwrap();
        unsafe { libc::umask(0o022) };
    });
    let pkgs = sc["pkgs"].as_array().unwrap().clone();
    let pr = Project::new("ext");
    let base = pr.base.canonicalize().unwrap();
    let tars: Vec<Vec<u8>> = pkgs.iter().map(|p| tarball_of(p, &base)).collect();
    let known = Conts::new(&pkgs);
    let serve = Arc::new(Mutex::new("good".to_string()));
    let gets = Arc::new(Mutex::new(0usize));
    let base_url = Arc::new(Mutex::new(String::new()));
    let other = tgz(&[Ent::file("package/package.json", r#"{"name":"other","version":"9.9.9"}"#), Ent::file("package/other.js", "other\n")]);
    let srv = {
        let (pkgs, tars, serve, gets, base_url) = (pkgs.clone(), tars.clone(), serve.clone(), gets.clone(), base_url.clone());
        Server::start(Arc::new(move |r: &Req| {
            let base = base_url.lock().unwrap().clone();
            for (i, p) in pkgs.iter().enumerate() {
                let name = p["name"].as_str().unwrap();
                let plain = r.path.replace("%2f", "/").replace("%2F", "/").replace("%40", "@");
                if plain == format!("/{name}") {
                    let now = serve.lock().unwrap().clone();
                    let claimed = if now.starts_with("swap-") { bad(&now, &tars[i], &other).0 } else { tars[i].clone() };
                    let v = json!({"name": name, "version": "1.0.0", "dist": dist_of(p, &format!("{base}t/{i}.tgz"), &claimed), "scripts": manifest_of(p)["scripts"], "bin": manifest_of(p)["bin"]});
                    return Resp::json(&json!({"name": name, "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": v}}));
                }
                if r.path == format!("/t/{i}.tgz") {
                    *gets.lock().unwrap() += 1;
                    return match bad(&serve.lock().unwrap(), &tars[i], &other) {
                        (d, Some(n)) => Resp::new(200, d).mode(Mode::Truncate(n)),
                        (d, None) => Resp::new(200, d),
                    };
                }
            }
            Resp::new(404, "{}")
        }))
    };
    *base_url.lock().unwrap() = srv.url();
    // Far enough down that nothing leads out of the scratch directory.
    let work = base.join("w/x/y/z");
    std::fs::create_dir_all(&work).unwrap();
    for d in ["w", "w/x", "w/x/y", "w/x/y/z"] {
        std::fs::write(base.join(d).join("keep"), "keep\n").unwrap();
        std::fs::create_dir_all(base.join(d).join("bin")).unwrap();
        std::fs::write(base.join(d).join("bin/run"), "keep\n").unwrap();
        std::fs::write(base.join(d).join("run"), "keep\n").unwrap();
    }
    let cache = base.join("cache");
    std::fs::create_dir_all(&cache).unwrap();
    let mut dirs: HashMap<usize, PathBuf> = HashMap::new();
    let mut out = vec![];
    for (k, st) in sc["steps"].as_array().unwrap().iter().enumerate() {
        let mut rec = st.as_object().unwrap().clone();
        let pi = st["p"].as_u64().unwrap() as usize - 1;
        *serve.lock().unwrap() = st["serve"].as_str().unwrap().into();
        *gets.lock().unwrap() = 0;
        match st["op"].as_str().unwrap() {
            "install" => {
                let p = &pkgs[pi];
                let dir = work.join(format!("i{k}")).join("node_modules").join("it");
                std::fs::create_dir_all(dir.parent().unwrap()).unwrap();
                std::fs::create_dir_all(work.join(format!("i{k}/node_modules/p2"))).unwrap();
                std::fs::write(work.join(format!("i{k}/node_modules/p2/index.js")), "neighbour\n").unwrap();
                let before = full(&base, &[&dir, &cache]);
                let mut o = NassunOpts::new().registry(srv.url().parse().unwrap()).base_dir(&work).retries(0);
                if st["cache"] == true {
                    o = o.cache(&cache);
                }
                let nassun = o.build();
                let mode = match st["mode"].as_str().unwrap() {
                    "copy" => ExtractMode::Copy,
                    "reflink" => ExtractMode::Reflink,
                    "autohardlink" => ExtractMode::AutoHardlink,
                    "hardlink" => ExtractMode::Hardlink,
                    _ => ExtractMode::Auto,
                };
                let spec = format!("{}@1.0.0", p["name"].as_str().unwrap());
                let (lock, url, data) = (p["integ"] == "lock", format!("{}t/{pi}.tgz", srv.url()), tars[pi].clone());
                let (d2, name) = (dir.clone(), p["name"].as_str().unwrap().to_string());
                let r = guarded(std::time::Duration::from_secs(60), move || {
                    async_std::task::block_on(async {
                        let pkg = if lock {
                            nassun.resolve_from(
                                name.clone(),
                                spec.parse().unwrap(),
                                PackageResolution::Npm {
                                    name,
                                    version: "1.0.0".parse().unwrap(),
                                    tarball: url.parse().unwrap(),
                                    integrity: Some(sha512(&data).parse().unwrap()),
                                },
                            )
                        } else {
                            nassun.resolve(&spec).await.map_err(|e| format!("resolve: {e:?}"))?
                        };
                        pkg.extract_to_dir(&d2, mode).await.map(|_| ()).map_err(|e| format!("{e:?}"))
                    })
                });
                let (outcome, why) = match r {
                    Out::Done(Ok(())) => ("ok", String::new()),
                    Out::Done(Err(e)) => ("err", e),
                    Out::Panic(e) => ("panic", e),
                    Out::Hang => ("hang", String::new()),
                };
                rec.insert("why".into(), json!(why.chars().take(300).collect::<String>()));
                let after = full(&base, &[&dir, &cache]);
                let cached = inodes(&cache);
                rec.insert("outcome".into(), json!(outcome));
                rec.insert("files".into(), json!(files(&dir, &known, p["id"].as_i64().unwrap(), &cached, false)));
                rec.insert("escaped".into(), json!(before != after));
                rec.insert("gets".into(), json!(*gets.lock().unwrap()));
                dirs.insert(k, dir);
            }
            "apply" => {
                let proj = work.join("proj");
                let nm = proj.join("node_modules");
                std::fs::create_dir_all(&proj).unwrap();
                let mut deps = serde_json::Map::new();
                for p in &pkgs {
                    let (name, at) = (p["name"].as_str().unwrap(), p["as"].as_str().unwrap());
                    deps.insert(at.into(), json!(if at == name { "1.0.0".to_string() } else { format!("npm:{name}@1.0.0") }));
                }
                std::fs::write(proj.join("package.json"), json!({"name": "proj", "version": "1.0.0", "dependencies": deps}).to_string()).unwrap();
                let lockfile = proj.join("package-lock.kdl");
                let skip = [nm.as_path(), cache.as_path(), lockfile.as_path(), pr.home.as_path()];
                let before = full(&base, &skip);
                let (reg, cdir) = (srv.url(), cache.to_string_lossy().into_owned());
                let mut args = vec!["--registry", &reg, "--cache", &cdir, "--no-emoji", "apply", "--retries", "0"];
                if st["mode"] == "hoisted" {
                    args.push("--hoisted");
                }
                let mut run = pr.oro(&args);
                run.cwd = proj.clone();
                let ran = crate::oro::run(&run);
                let after = full(&base, &skip);
                let mut escaped = before != after;
                let mut bad_links = vec![];
                for e in walkdir::WalkDir::new(&nm).into_iter().flatten().filter(|e| e.file_type().is_symlink()) {
                    if e.path().canonicalize().map(|t| !t.starts_with(&nm)).unwrap_or(false) {
                        escaped = true;
                        bad_links.push(e.path().strip_prefix(&nm).unwrap().display().to_string());
                    }
                }
                let cached = inodes(&cache);
                let places: Vec<Value> = pkgs
                    .iter()
                    .enumerate()
                    .filter(|(_, p)| p["named"] == true)
                    .map(|(i, p)| {
                        let d = nm.join(p["as"].as_str().unwrap());
                        let d = d.canonicalize().unwrap_or(d);
                        json!({"p": i + 1, "files": files(&d, &known, p["id"].as_i64().unwrap(), &cached, false)})
                    })
                    .collect();
                rec.insert("outcome".into(), json!(ran.class()));
                rec.insert("why".into(), json!(ran.err.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
                rec.insert("badlinks".into(), json!(bad_links));
                rec.insert("places".into(), json!(places));
                rec.insert("escaped".into(), json!(escaped));
            }
            // The registry has something else for a version that's in the lockfile.
            "swap" => {
                let proj = work.join(format!("swap{k}"));
                let nm = proj.join("node_modules");
                std::fs::create_dir_all(&proj).unwrap();
                let own = base.join(format!("swapcache{k}"));
                let (reg, cdir) = (srv.url(), own.to_string_lossy().into_owned());
                let deps: serde_json::Map<String, Value> = pkgs.iter().map(|p| (p["name"].as_str().unwrap().to_string(), json!("^1.0.0"))).collect();
                std::fs::write(proj.join("package.json"), json!({"name": "proj", "version": "1.0.0", "dependencies": deps}).to_string()).unwrap();
                let mut args = vec!["--registry", &reg, "--cache", &cdir, "--no-emoji", "apply", "--retries", "0"];
                if st["mode"] == "hoisted" {
                    args.push("--hoisted");
                }
                let go = || {
                    let mut run = pr.oro(&args);
                    run.cwd = proj.clone();
                    crate::oro::run(&run)
                };
                *serve.lock().unwrap() = "good".into();
                if st["how"] == "npm" {
                    let mut l = serde_json::Map::new();
                    l.insert("".into(), json!({"name": "proj", "version": "1.0.0", "dependencies": deps}));
                    for (i, p) in pkgs.iter().enumerate() {
                        let d = dist_of(p, &format!("{reg}t/{i}.tgz"), &tars[i]);
                        let mut e = json!({"version": "1.0.0", "resolved": d["tarball"]});
                        if d["integrity"].is_string() {
                            e["integrity"] = d["integrity"].clone();
                        }
                        l.insert(format!("node_modules/{}", p["name"].as_str().unwrap()), e);
                    }
                    std::fs::write(proj.join("package-lock.json"), json!({"name": "proj", "version": "1.0.0", "lockfileVersion": 3, "requires": true, "packages": l}).to_string()).unwrap();
                    rec.insert("first".into(), json!("ok"));
                } else {
                    rec.insert("first".into(), json!(go().class()));
                }
                for d in [&nm, &own] {
                    assert!(d.starts_with(&base));
                    let _ = std::fs::remove_dir_all(d);
                }
                *serve.lock().unwrap() = format!("swap-{}", st["serve"].as_str().unwrap());
                let ran = go();
                *serve.lock().unwrap() = "good".into();
                let cached = inodes(&own);
                let places: Vec<Value> = pkgs
                    .iter()
                    .enumerate()
                    .map(|(i, p)| {
                        let d = nm.join(p["name"].as_str().unwrap());
                        let d = d.canonicalize().unwrap_or(d);
                        json!({"p": i + 1, "files": files(&d, &known, p["id"].as_i64().unwrap(), &cached, false)})
                    })
                    .collect();
                rec.insert("outcome".into(), json!(ran.class()));
                rec.insert("why".into(), json!(ran.err.chars().rev().take(400).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
                rec.insert("places".into(), json!(places));
            }
            "content" => {
                let all = all_files(&cache.join("content-v2"));
                if !all.is_empty() {
                    hurt(&all[st["which"].as_u64().unwrap() as usize % all.len()], st["how"].as_str().unwrap());
                }
            }
            "index" => {
                let all = all_files(&cache.join("index-v5"));
                if !all.is_empty() {
                    hurt(&all[st["which"].as_u64().unwrap() as usize % all.len()], st["how"].as_str().unwrap());
                }
            }
            "edit" => {
                if let Some(d) = dirs.get(&(st["at"].as_u64().unwrap() as usize - 1)) {
                    let all = all_files(d);
                    if !all.is_empty() {
                        hurt(&all[st["which"].as_u64().unwrap() as usize % all.len()], st["how"].as_str().unwrap());
                    }
                }
            }
            _ => {}
        }
        out.push(Value::Object(rec));
    }
    json!({"pkgs": pkgs, "steps": out})
}
