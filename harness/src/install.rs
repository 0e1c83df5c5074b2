//! Histories of a project's node_modules, driven through the real command.
use crate::lock::*;
use crate::oro::*;
use crate::universe::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};

fn esc(p: &str) -> String {
    p.replace('/', "+")
}

/// What scripts do: log, fail if told to, leave a file in their package.
pub fn dress(uni: &mut Universe) {
    for v in uni.vers.iter_mut() {
        for s in v.scripts.clone() {
            let id = format!("{}@{}", esc(&v.p), ver_str(&v.v));
            v.bodies.insert(
                s.clone(),
                format!("echo \"{id} {s}\" >> \"$VP_LOG\"; [ ! -e \"$VP_FAIL/{id}.{s}\" ] || exit 3; echo built > built-{s}"),
            );
        }
    }
}

type Files = BTreeMap<String, Vec<u8>>;

pub struct Known(HashMap<(String, String), Files>);

impl Known {
    pub fn new(uni: &Universe) -> Self {
        Known(
            uni.vers
                .iter()
                .map(|v| {
                    (
                        (v.p.clone(), ver_str(&v.v)),
                        v.files().into_iter().map(|(p, d, _)| (p, d)).collect(),
                    )
                })
                .collect(),
        )
    }

    /// What package is in this directory, and what is wrong with it.
    fn identify(&self, dir: &Path) -> (String, V, String, Vec<String>) {
        let mut have: Files = BTreeMap::new();
        let mut built = vec![];
        let mut why = String::new();
        for (rel, what) in listing_skip_nm(dir) {
            if what == "dir" {
                continue;
            }
            if let Some(e) = rel.strip_prefix("built-") {
                built.push(e.to_string());
                continue;
            }
            if what != "file" {
                why = format!("{rel} is a {what}");
            }
            have.insert(rel.clone(), std::fs::read(dir.join(&rel)).unwrap_or_default());
        }
        let pj: Value = have
            .get("package.json")
            .and_then(|b| serde_json::from_slice(b).ok())
            .unwrap_or(Value::Null);
        let p = pj["name"].as_str().unwrap_or("?").to_string();
        let vs = pj["version"].as_str().unwrap_or("?").to_string();
        match self.0.get(&(p.clone(), vs.clone())) {
            None => why = format!("no such package: {p} {vs}"),
            Some(f) => {
                for (k, d) in f {
                    match have.get(k) {
                        None => why = format!("{k} is missing"),
                        Some(x) if x != d => why = format!("{k} differs"),
                        _ => {}
                    }
                }
                if let Some(k) = have.keys().find(|k| !f.contains_key(*k)) {
                    why = format!("{k} is extra");
                }
            }
        }
        (p, ver_parse(&vs), why, built)
    }
}

fn listing_skip_nm(dir: &Path) -> Vec<(String, String)> {
    fn go(base: &Path, d: &Path, out: &mut Vec<(String, String)>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            if d == base && e.file_name() == "node_modules" {
                continue;
            }
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let Ok(m) = p.symlink_metadata() else { continue };
            if m.is_symlink() {
                out.push((rel, "link".into()));
            } else if m.is_dir() {
                out.push((rel, "dir".into()));
                go(base, &p, out);
            } else {
                out.push((rel, "file".into()));
            }
        }
    }
    let mut out = vec![];
    go(dir, dir, &mut out);
    out.sort();
    out
}

struct Owner {
    links: Vec<(String, String, PathBuf)>,
    bins: Vec<(String, PathBuf)>,
}

struct Place {
    id: String,
    at: Vec<String>,
    dir: PathBuf,
    own: Owner,
}

#[derive(Default)]
struct Scan {
    places: Vec<Place>,
    stray: Vec<String>,
    store: bool,
}

fn names(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d)
        .map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn is_dir(p: &Path) -> bool {
    p.symlink_metadata().map(|m| m.is_dir()).unwrap_or(false)
}
fn is_link(p: &Path) -> bool {
    p.symlink_metadata().map(|m| m.is_symlink()).unwrap_or(false)
}

/// The entries of one node_modules directory: (name, path).
fn entries(nm: &Path) -> Vec<(String, PathBuf)> {
    let mut out = vec![];
    for n in names(nm) {
        let p = nm.join(&n);
        if n.starts_with('@') && is_dir(&p) {
            for m in names(&p) {
                out.push((format!("{n}/{m}"), p.join(&m)));
            }
        } else {
            out.push((n, p));
        }
    }
    out
}

fn scan_nm(nm: &Path, top: &Path, at: &[String], idp: &str, s: &mut Scan, in_store: bool) -> Owner {
    let mut own = Owner { links: vec![], bins: vec![] };
    for (n, p) in entries(nm) {
        if n == ".bin" && is_dir(&p) {
            for b in names(&p) {
                own.bins.push((b.clone(), p.join(b)));
            }
        } else if nm == top && (n == ".orogene-meta.kdl" || n == ".oro-store") {
            continue;
        } else if is_link(&p) {
            own.links.push((n, "link".into(), p));
        } else if is_dir(&p) {
            let mut a = at.to_vec();
            a.push(n.clone());
            let id = format!("{idp}/{n}");
            own.links.push((n, "dir".into(), p.clone()));
            let sub = scan_nm(&p.join("node_modules"), top, &a, &id, s, in_store);
            s.places.push(Place { id, at: if in_store { vec![] } else { a }, dir: p, own: sub });
        } else {
            s.stray.push(p.strip_prefix(top).unwrap().to_string_lossy().into_owned());
        }
    }
    own
}

/// What is in a project's node_modules, as facts.
pub fn facts(root: &Path, known: &Known) -> Value {
    let nm = root.join("node_modules");
    let mut s = Scan::default();
    let rootown = scan_nm(&nm, &nm, &[], "nm", &mut s, false);
    let store = nm.join(".oro-store");
    if is_dir(&store) {
        s.store = true;
        for (n, p) in entries(&store) {
            if !is_dir(&p) {
                s.stray.push(format!(".oro-store/{n}"));
                continue;
            }
            for x in names(&p) {
                if x != "node_modules" {
                    s.stray.push(format!(".oro-store/{n}/{x}"));
                }
            }
            let inner = p.join("node_modules");
            for (m, q) in entries(&inner) {
                if !is_dir(&q) {
                    s.stray.push(format!(".oro-store/{n}/node_modules/{m}"));
                    continue;
                }
                let id = format!("store/{n}/{m}");
                let sub = scan_nm(&q.join("node_modules"), &nm, &[], &id, &mut s, true);
                s.places.push(Place { id, at: vec![], dir: q, own: sub });
            }
        }
    }
    let real: HashMap<PathBuf, String> = s
        .places
        .iter()
        .map(|p| (p.dir.canonicalize().unwrap_or_else(|_| p.dir.clone()), p.id.clone()))
        .collect();
    let to = |p: &Path| -> String {
        match p.canonicalize() {
            Err(_) => "?nowhere".into(),
            Ok(c) => real.get(&c).cloned().unwrap_or_else(|| "?elsewhere".into()),
        }
    };
    let own_json = |o: &Owner| {
        let links: Vec<Value> = o.links.iter().map(|(n, k, p)| json!({"n": n, "kind": k, "to": to(p)})).collect();
        let bins: Vec<Value> = o
            .bins
            .iter()
            .map(|(n, p)| {
                let mut id = "?nowhere".to_string();
                let mut file = String::new();
                let mut exec = false;
                if let Ok(c) = p.canonicalize() {
                    id = "?elsewhere".into();
                    let mut up = Some(c.as_path());
                    while let Some(u) = up {
                        if let Some(i) = real.get(u) {
                            id = i.clone();
                            file = c.strip_prefix(u).unwrap().to_string_lossy().into_owned();
                            break;
                        }
                        up = u.parent();
                    }
                    use std::os::unix::fs::PermissionsExt;
                    exec = c.metadata().map(|m| m.is_file() && m.permissions().mode() & 0o111 == 0o111).unwrap_or(false);
                }
                json!({"n": n, "to": id, "file": file, "exec": exec})
            })
            .collect();
        (links, bins)
    };
    let (rl, rb) = own_json(&rootown);
    let places: Vec<Value> = s
        .places
        .iter()
        .map(|p| {
            let (p_, v, why, built) = known.identify(&p.dir);
            let (l, b) = own_json(&p.own);
            json!({"id": p.id, "at": p.at, "p": p_, "v": v, "why": why, "built": built, "links": l, "bins": b,
                   "dir": p.dir.strip_prefix(root).unwrap_or(&p.dir).to_string_lossy(), "instore": p.id.starts_with("store/")})
        })
        .collect();
    json!({"exists": is_dir(&nm), "store": s.store, "stray": s.stray, "places": places, "links": rl, "bins": rb})
}

/// inode numbers of everything extracted (not what is relinked or rewritten)
fn inodes(root: &Path) -> String {
    use std::os::unix::fs::MetadataExt;
    let mut out = vec![];
    for e in walkdir::WalkDir::new(root.join("node_modules")).into_iter().flatten() {
        let p = e.path().to_string_lossy().into_owned();
        if e.file_type().is_file() && !p.ends_with(".orogene-meta.kdl") {
            out.push((p, e.metadata().map(|m| m.ino().to_string()).unwrap_or_default()));
        }
    }
    out.sort();
    digest(&out)
}

pub fn lock_tree(text: &str) -> Value {
    match node_maintainer::Lockfile::from_kdl(text) {
        Err(_) => json!([]),
        Ok(l) => Value::Array(
            l.packages()
                .values()
                .map(|n| {
                    let (p, v) = from_tarball_url(n.resolved.as_deref().unwrap_or(""));
                    json!({"path": n.path.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "p": p, "v": v})
                })
                .collect(),
        ),
    }
}

fn read(p: &Path) -> String {
    std::fs::read_to_string(p).unwrap_or_default()
}

struct Hist {
    pr: Project,
    uni: Universe,
    known: Known,
    reg: Registry,
    root: Value,
}

impl Hist {
    fn foreign(&self, op: &str, n: &str, at: usize) -> String {
        let nm = self.pr.root.join("node_modules");
        let put_pkg = |d: &Path, name: &str| {
            std::fs::create_dir_all(d.join("lib")).unwrap();
            std::fs::write(d.join("package.json"), json!({"name": name, "version": "9.9.9"}).to_string()).unwrap();
            std::fs::write(d.join("lib/data.txt"), "foreign").unwrap();
        };
        let absent = |p: &Path| p.symlink_metadata().is_err();
        let rm = |p: &Path| {
            assert!(p.starts_with(&self.pr.base));
            if is_dir(p) {
                std::fs::remove_dir_all(p).unwrap();
            } else {
                let _ = std::fs::remove_file(p);
            }
        };
        let pick = |v: Vec<PathBuf>| if v.is_empty() { None } else { Some(v[at % v.len()].clone()) };
        match op {
            "rm-entry" => match pick(entries(&nm).into_iter().filter(|(n, _)| !n.starts_with('.')).map(|x| x.1).collect()) {
                Some(p) => rm(&p),
                None => return "skipped".into(),
            },
            "stray-file" => {
                std::fs::create_dir_all(&nm).unwrap();
                std::fs::write(nm.join("README.txt"), "stray").unwrap();
            }
            "foreign-pkg" => {
                let d = nm.join(n);
                if !absent(&d) {
                    return "skipped".into();
                }
                put_pkg(&d, n);
            }
            "foreign-file-at" => {
                let d = nm.join(n);
                if !absent(&d) {
                    return "skipped".into();
                }
                std::fs::create_dir_all(d.parent().unwrap()).unwrap();
                std::fs::write(&d, "foreign").unwrap();
            }
            "foreign-scope" => put_pkg(&nm.join("@z/q"), "@z/q"),
            "foreign-bin" => {
                std::fs::create_dir_all(nm.join(".bin")).unwrap();
                let _ = std::os::unix::fs::symlink("../zzz/cli.js", nm.join(".bin/zzz"));
            }
            "foreign-link" => {
                let d = nm.join(n);
                if !absent(&d) {
                    return "skipped".into();
                }
                put_pkg(&self.pr.base.join("elsewhere"), n);
                std::fs::create_dir_all(d.parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(self.pr.base.join("elsewhere"), &d).unwrap();
            }
            "wrong-link" => {
                // an entry that is a link now leads to where another one does
                let ls: Vec<_> = entries(&nm).into_iter().filter(|(_, p)| is_link(p)).map(|x| x.1).collect();
                if ls.len() < 2 {
                    return "skipped".into();
                }
                let a = &ls[at % ls.len()];
                let b = &ls[(at + 1) % ls.len()];
                let t = b.canonicalize().unwrap_or_else(|_| nm.clone());
                rm(a);
                std::os::unix::fs::symlink(t, a).unwrap();
            }
            "rm-meta" => rm(&nm.join(".orogene-meta.kdl")),
            "bad-meta" => {
                if !is_dir(&nm) {
                    return "skipped".into();
                }
                std::fs::write(nm.join(".orogene-meta.kdl"), "pkg {{{ nonsense").unwrap();
            }
            "rm-store-pkg" => {
                match pick(entries(&nm.join(".oro-store")).into_iter().map(|x| x.1).collect()) {
                    Some(p) => rm(&p),
                    None => return "skipped".into(),
                }
            }
            "rm-nm" => rm(&nm),
            "rm-lock" => rm(&self.pr.root.join("package-lock.kdl")),
            // Files are replaced, not written to: they may be links into the cache.
            "tamper" | "tamper-bin" | "add-file" | "del-file" | "built-again" | "no-exec" => {
                let mut dirs = vec![];
                for e in walkdir::WalkDir::new(&nm).sort_by_file_name().into_iter().flatten() {
                    if e.file_type().is_file() && e.file_name() == "package.json" {
                        dirs.push(e.path().parent().unwrap().to_path_buf());
                    }
                }
                let Some(d) = pick(dirs) else { return "skipped".into() };
                let files: Vec<PathBuf> = listing_skip_nm(&d).into_iter().filter(|(_, w)| w == "file").map(|(r, _)| d.join(r)).collect();
                let bins: Vec<PathBuf> = files.iter().filter(|f| f.extension().map(|x| x == "js" || x == "sh").unwrap_or(false)).cloned().collect();
                match op {
                    "tamper" => {
                        let f = &files[at % files.len()];
                        let mut t = std::fs::read(f).unwrap();
                        t.extend_from_slice(b"\n\n");
                        rm(f);
                        std::fs::write(f, t).unwrap();
                    }
                    "tamper-bin" | "no-exec" => {
                        let Some(f) = pick(bins) else { return "skipped".into() };
                        let t = if op == "no-exec" { std::fs::read(&f).unwrap() } else { b"#!/bin/sh\nexit 1\n".to_vec() };
                        rm(&f);
                        std::fs::write(&f, t).unwrap();
                    }
                    "add-file" => std::fs::write(d.join("added.txt"), "added").unwrap(),
                    "built-again" => std::fs::write(d.join("built-elsewhere"), "built").unwrap(),
                    _ => rm(&files[at % files.len()]),
                }
            }
            "bin-file" => {
                std::fs::create_dir_all(nm.join(".bin")).unwrap();
                let p = nm.join(".bin").join(["a", "b", "see", "d", "e"][at % 5]);
                rm(&p);
                std::fs::write(&p, "#!/bin/sh\nexit 1\n").unwrap();
            }
            "nested-stray" => {
                let ds: Vec<PathBuf> = walkdir::WalkDir::new(&nm).sort_by_file_name().into_iter().flatten().filter(|e| e.file_type().is_dir()).map(|e| e.into_path()).collect();
                let Some(d) = pick(ds) else { return "skipped".into() };
                std::fs::create_dir_all(d.join("stray-dir/deeper")).unwrap();
                std::fs::write(d.join("stray-dir/deeper/file"), "stray").unwrap();
            }
            "nm-link" => {
                // node_modules is somewhere else altogether
                let away = self.pr.base.join("elsewhere");
                std::fs::create_dir_all(away.join("x")).unwrap();
                std::fs::write(away.join("x/file"), "elsewhere").unwrap();
                rm(&nm);
                std::os::unix::fs::symlink(&away, &nm).unwrap();
            }
            "bad-lock" => std::fs::write(self.pr.root.join("package-lock.kdl"), "lockfile {{{").unwrap(),
            o => panic!("unknown foreign change {o}"),
        }
        "done".into()
    }

    fn apply(&mut self, st: &Value) -> Value {
        let fl = |k: &str| st["flags"][k].as_bool().unwrap_or(false);
        let fault = st["fault"].as_str().unwrap();
        let at = st["at"].as_u64().unwrap() as usize;
        let deps: Vec<Dep> = serde_json::from_value(st["root"].clone()).unwrap();
        self.root = st["root"].clone();
        let pj = self.pr.root.join("package.json");
        let text = serde_json::to_string_pretty(&manifest("proj", "1.0.0", &deps)).unwrap();
        if read(&pj) != text {
            std::fs::write(&pj, text).unwrap();
        }
        let url = self.reg.srv.url();
        let cache = if fl("nocache") {
            let d = self.pr.base.join(format!("cache-{}", at));
            let _ = std::fs::remove_dir_all(&d);
            d
        } else {
            self.pr.cache.clone()
        };
        let conc = st["conc"].as_u64().unwrap().to_string();
        let mut args = vec![
            st["cmd"].as_str().unwrap_or("apply").to_string(), "--registry".into(), url, "--root".into(), self.pr.root.display().to_string(),
            "--cache".into(), cache.display().to_string(), "--concurrency".into(), conc, "--retries".into(), "0".into(),
        ];
        if st["mode"] == "hoisted" {
            args.push("--hoisted".into());
        }
        for (k, a) in [
            ("locked", "--locked"), ("lockonly", "--lockfile-only"), ("nolock", "--no-lockfile"),
            ("noscripts", "--no-scripts"), ("noapply", "--no-apply"), ("copy", "--prefer-copy"),
        ] {
            if fl(k) {
                args.push(a.into());
            }
        }
        let lockp = self.pr.root.join("package-lock.kdl");
        let fails = self.pr.base.join("fails");
        let _ = std::fs::remove_dir_all(&fails);
        std::fs::create_dir_all(&fails).unwrap();
        let log = self.pr.base.join("log");
        let _ = std::fs::remove_file(&log);
        let mut env = vec![
            ("VP_LOG".to_string(), log.display().to_string()),
            ("VP_FAIL".to_string(), fails.display().to_string()),
        ];
        match fault {
            "http" | "corrupt" => {
                let v = &self.uni.vers[at % self.uni.vers.len()];
                self.reg.faults.0.lock().unwrap().push(Fault {
                    path: tarball_path(&v.p, &v.v),
                    what: if fault == "http" { "404".into() } else { "corrupt".into() },
                    times: -1,
                });
            }
            "script" => {
                let all: Vec<String> = self.uni.vers.iter()
                    .flat_map(|v| v.scripts.iter().map(move |s| format!("{}@{}.{}", esc(&v.p), ver_str(&v.v), s)))
                    .collect();
                // one of all scripts there are will fail
                for i in 0..2 {
                    if !all.is_empty() {
                        std::fs::write(fails.join(&all[(at + i * 7) % all.len()]), "").unwrap();
                    }
                }
            }
            "crash" => {
                let root = self.pr.root.canonicalize().unwrap();
                // first, how many steps are there to be interrupted at?
                let copy = crate::util::scratch("count");
                let croot = copy.join("proj");
                copy_tree(&root, &croot);
                let count = copy.join("n");
                let mut a2 = args.clone();
                a2[4] = croot.display().to_string();
                a2[6] = copy.join("cache").display().to_string();
                copy_tree(&cache, &copy.join("cache"));
                let mut r = self.pr.oro(&[]);
                r.args = a2;
                r.cwd = croot.clone();
                r.env = env.clone();
                r.env.extend([
                    ("LD_PRELOAD".to_string(), std::env::var("VP_SHIM").expect("VP_SHIM")),
                    ("VP_CRASH_ROOT".to_string(), croot.canonicalize().unwrap().display().to_string()),
                    ("VP_CRASH_COUNT".to_string(), count.display().to_string()),
                ]);
                crate::oro::run(&r);
                let n: usize = read(&count).trim().parse().unwrap_or(0);
                crate::util::rm_scratch(&copy);
                let _ = std::fs::remove_file(&log);
                let k = if n == 0 { 1 } else { 1 + at * n / 1000 };
                env.extend([
                    ("LD_PRELOAD".to_string(), std::env::var("VP_SHIM").expect("VP_SHIM")),
                    ("VP_CRASH_ROOT".to_string(), root.display().to_string()),
                    ("VP_CRASH_AT".to_string(), k.to_string()),
                ]);
            }
            "" => {}
            o => panic!("unknown fault {o}"),
        }
        let before = listing(&self.pr.root);
        let nm_before = digest(&listing(&self.pr.root.join("node_modules")));
        let ino_before = inodes(&self.pr.root);
        let lock_before = read(&lockp);
        // (but for orogene's own record, which it may drop)
        let away = || digest(&listing(&self.pr.base.join("elsewhere")).into_iter().filter(|(p, _)| p != ".orogene-meta.kdl").collect::<Vec<_>>());
        let else_before = away();
        self.reg.take_log();
        let mut r = self.pr.oro(&[]);
        r.args = args;
        r.env = env;
        let ran = crate::oro::run(&r);
        self.reg.faults.0.lock().unwrap().clear();
        let reqs = self.reg.take_log();
        let after = listing(&self.pr.root);
        let lock_after = read(&lockp);
        let scripts: Vec<String> = read(&log).lines().map(|s| s.to_string()).collect();
        let rootfiles: Vec<String> = names(&self.pr.root);
        let meta = read(&self.pr.root.join("node_modules/.orogene-meta.kdl"));
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("--- {:?} {}\n{}", r.args, ran.class(), ran.err);
        }
        let changed: Vec<&String> = if digest(&before) == digest(&after) {
            vec![]
        } else {
            let b: BTreeMap<_, _> = before.iter().cloned().collect();
            let a: BTreeMap<_, _> = after.iter().cloned().collect();
            before.iter().filter(|(k, v)| a.get(k) != Some(v)).chain(after.iter().filter(|(k, _)| !b.contains_key(k))).map(|x| &x.0).take(5).collect()
        };
        json!({
            "outcome": ran.class(),
            "samenm": nm_before == digest(&listing(&self.pr.root.join("node_modules"))),
            "changed": changed,
            "sameino": ino_before == inodes(&self.pr.root),
            "tarballs": reqs.iter().filter(|q| q.path.contains("/-/")).map(|q| q.path.clone()).collect::<Vec<_>>(),
            "scripts": scripts,
            "rootfiles": rootfiles,
            "samelock": lock_before == lock_after,
            "haslock": lockp.exists(),
            "hadlock": !lock_before.is_empty(),
            "lock": lock_tree(&lock_after),
            "meta": lock_tree(&meta),
            "elsewhere": else_before == away(),
            "disk": facts(&self.pr.root, &self.known),
        })
    }
}

pub fn copy_tree(from: &Path, to: &Path) {
    if !from.exists() {
        return;
    }
    let st = std::process::Command::new("cp").arg("-a").arg(from).arg(to).status().expect("cp");
    assert!(st.success());
}

pub fn run_install(sc: Value) -> Value {
    let mut uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    dress(&mut uni);
    let known = Known::new(&uni);
    let reg = Registry::new(&uni);
    let mut h = Hist { pr: Project::new("inst"), uni, known, reg, root: json!([]) };
    let mut out = vec![];
    for st in sc["steps"].as_array().unwrap() {
        let op = st["op"].as_str().unwrap();
        let mut rec: Map<String, Value> = st.as_object().unwrap().clone();
        if op == "apply" {
            rec.insert("obs".into(), h.apply(st));
        } else {
            let r = h.foreign(op, st["n"].as_str().unwrap(), st["at"].as_u64().unwrap() as usize);
            rec.insert("obs".into(), json!({"outcome": r}));
        }
        let hung = rec["obs"]["outcome"] == "hang";
        out.push(Value::Object(rec));
        if hung {
            break;
        }
    }
    json!({"uni": sc["uni"], "steps": out})
}
