//! Commands of several projects that run at the same time and share a cache.
use crate::install::*;
use crate::lock::*;
use crate::oro::*;
use crate::universe::*;
use serde_json::{json, Value};
use std::ffi::CString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};

/// Holds a process at each of its steps in the cache until let go (see the shim).
struct Held {
    prefix: PathBuf,
    at: File,
    go: File,
    done: Arc<AtomicBool>,
    /// it has asked to go on
    asked: bool,
    killed: bool,
}

impl Held {
    fn new(prefix: PathBuf) -> Self {
        let fifo = |e: &str| {
            let p = prefix.with_extension(e);
            let _ = std::fs::remove_file(&p);
            let c = CString::new(p.display().to_string()).unwrap();
            assert_eq!(unsafe { libc::mkfifo(c.as_ptr(), 0o600) }, 0);
            std::fs::OpenOptions::new().read(true).write(true).open(&p).unwrap()
        };
        Held { at: fifo("at"), go: fifo("go"), prefix, done: Default::default(), asked: false, killed: false }
    }
    /// Whether it's about to take a step, waiting for that for a while.
    fn wait(&mut self, ms: i32) -> bool {
        let until = Instant::now() + Duration::from_millis(ms as u64);
        while !self.asked && !self.done.load(SeqCst) {
            let mut p = libc::pollfd { fd: self.at.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, ms.min(5)) } > 0 {
                let mut b = [0];
                self.at.read_exact(&mut b).unwrap();
                self.asked = true;
            } else if Instant::now() >= until {
                break;
            }
        }
        self.asked
    }
    fn answer(&mut self, c: &[u8]) {
        self.asked = false;
        self.go.write_all(c).unwrap();
    }
}

fn files_under(d: &Path, sub: &str) -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = walkdir::WalkDir::new(d)
        .into_iter()
        .flatten()
        .filter(|e| e.file_type().is_file() && e.path().display().to_string().contains(sub))
        .map(|e| e.into_path())
        .collect();
    v.sort();
    v
}

fn before(cache: &Path, b: &Value) {
    let logs = cache.join("_logs");
    std::fs::create_dir_all(&logs).unwrap();
    for i in 0..b["logs"].as_u64().unwrap() {
        std::fs::write(logs.join(format!("oro-debug-2020-01-01-00-00-0{i}.000-0.log")), "old").unwrap();
    }
    let at = b["at"].as_u64().unwrap() as usize;
    // the files may be linked to from the projects: they're replaced, not changed
    let cut = |f: &Path| {
        let d = std::fs::read(f).unwrap();
        std::fs::remove_file(f).unwrap();
        std::fs::write(f, &d[..d.len() / 2]).unwrap();
    };
    let some = |v: Vec<PathBuf>| v.into_iter().enumerate().filter(|(i, _)| (i * 7 + at) % 3 == 0).map(|x| x.1).collect::<Vec<_>>();
    let rm = |f: &PathBuf| {
        assert!(f.starts_with(cache));
        std::fs::remove_file(f).unwrap()
    };
    match b["harm"].as_str().unwrap() {
        "" => {}
        "no content" => files_under(cache, "/content-v2/").iter().for_each(rm),
        "some content" => some(files_under(cache, "/content-v2/")).iter().for_each(rm),
        "cut content" => some(files_under(cache, "/content-v2/")).iter().for_each(|f| cut(f)),
        "no index" => files_under(cache, "/index-v5/").iter().for_each(rm),
        "some index" => some(files_under(cache, "/index-v5/")).iter().for_each(rm),
        "cut index" => some(files_under(cache, "/index-v5/")).iter().for_each(|f| cut(f)),
        "no cache" => {
            std::fs::remove_dir_all(cache).unwrap();
            std::fs::create_dir_all(cache).unwrap();
        }
        "tmp" => {
            std::fs::create_dir_all(cache.join("tmp")).unwrap();
            std::fs::write(cache.join("tmp/.left"), "behind").unwrap();
        }
        o => panic!("unknown harm {o}"),
    }
}

pub fn run_shared(mut sc: Value) -> Value {
    let mut uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    dress(&mut uni);
    let known = Known::new(&uni);
    let reg = Registry::new(&uni);
    let top = Project::new("shared");
    let base = top.base.clone();
    let cache = top.cache.canonicalize().unwrap();
    let n = sc["rounds"][0]["procs"].as_array().unwrap().len();
    let roots: Vec<PathBuf> = (0..n).map(|i| base.join(format!("proj{i}"))).collect();
    for r in &roots {
        std::fs::create_dir_all(r).unwrap();
    }
    let mut rounds = sc["rounds"].as_array().unwrap().clone();
    for rd in rounds.iter_mut() {
        before(&cache, &rd["before"]);
        let mut held = vec![];
        let mut runs = vec![];
        for (i, p) in rd["procs"].as_array().unwrap().iter().enumerate() {
            let s = |k: &str| p[k].as_str().unwrap();
            let deps: Vec<Dep> = serde_json::from_value(p["root"].clone()).unwrap();
            std::fs::write(roots[i].join("package.json"), serde_json::to_string_pretty(&manifest("proj", "1.0.0", &deps)).unwrap()).unwrap();
            if p["fresh"] == true {
                let _ = std::fs::remove_dir_all(roots[i].join("node_modules"));
            }
            let mut args: Vec<String> = vec![s("what").into()];
            match s("what") {
                "apply" => {
                    args.extend(["--concurrency".into(), p["conc"].to_string()]);
                    if s("mode") == "hoisted" {
                        args.push("--hoisted".into());
                    }
                    if p["copy"] == true {
                        args.push("--prefer-copy".into());
                    }
                }
                "view" => {
                    let v = &uni.vers[p["at"].as_u64().unwrap() as usize % uni.vers.len()];
                    args.push(format!("{}@{}", v.p, ver_str(&v.v)));
                }
                _ => {}
            }
            for (k, v) in [("--registry", reg.srv.url()), ("--root", roots[i].display().to_string()), ("--cache", cache.display().to_string()), ("--retries", "0".into())] {
                args.extend([k.to_string(), v]);
            }
            let h = Held::new(base.join(format!("gate{i}")));
            let mut r = top.oro(&[]);
            r.args = args;
            r.cwd = roots[i].clone();
            r.limit = Some(Duration::from_secs(60));
            r.env = vec![
                ("VP_LOG".to_string(), base.join(format!("log{i}")).display().to_string()),
                ("VP_FAIL".to_string(), base.join("fails").display().to_string()),
                ("LD_PRELOAD".to_string(), std::env::var("VP_SHIM").expect("VP_SHIM")),
                ("VP_CRASH_ROOT".to_string(), cache.display().to_string()),
                ("VP_GATE".to_string(), h.prefix.display().to_string()),
            ];
            let done = h.done.clone();
            runs.push(std::thread::spawn(move || {
                let x = run(&r);
                done.store(true, SeqCst);
                (r, x)
            }));
            held.push(h);
        }
        // each in turn goes on for so many steps
        let mut turns = vec![];
        for t in rd["sched"].as_array().unwrap() {
            let i = t["p"].as_u64().unwrap() as usize - 1;
            let mut took = 0;
            for _ in 0..t["n"].as_u64().unwrap() {
                if !held[i].wait(150) {
                    break;
                }
                held[i].answer(b"g");
                took += 1;
            }
            if t["kill"] == true && held[i].wait(150) {
                held[i].answer(b"k");
                held[i].killed = true;
            }
            turns.push(json!([i + 1, took]));
        }
        // then all as they like
        while held.iter().any(|h| !h.done.load(SeqCst)) {
            for h in held.iter_mut() {
                if h.wait(0) {
                    h.answer(b"g");
                }
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        let mut procs = rd["procs"].as_array().unwrap().clone();
        for (i, t) in runs.into_iter().enumerate() {
            let (r, ran) = t.join().expect("run");
            if std::env::var("VP_SHOW").is_ok() {
                eprintln!("--- {:?} {}\n{}", r.args, ran.class(), ran.err);
            }
            let text = |f: &str| std::fs::read_to_string(roots[i].join(f)).unwrap_or_default();
            procs[i]["obs"] = json!({
                "outcome": ran.class(),
                "killed": held[i].killed,
                "lock": lock_tree(&text("package-lock.kdl")),
                "disk": facts(&roots[i], &known),
            });
        }
        rd["procs"] = json!(procs);
        rd["turns"] = json!(turns);
        rd["torn"] = json!(torn(&cache));
    }
    sc["rounds"] = json!(rounds);
    sc
}

/// Content that isn't what its name says it is.
fn torn(cache: &Path) -> usize {
    files_under(cache, "/content-v2/")
        .iter()
        .filter(|f| {
            let c: Vec<_> = f.components().map(|x| x.as_os_str().to_string_lossy().into_owned()).collect();
            let n = c.len();
            let hex = format!("{}{}{}", c[n - 3], c[n - 2], c[n - 1]);
            let algo: ssri::Algorithm = match c[n - 4].parse() {
                Ok(a) => a,
                Err(_) => return false,
            };
            let got = ssri::IntegrityOpts::new().algorithm(algo).chain(std::fs::read(f).unwrap_or_default()).result();
            got.to_hex().1 != hex
        })
        .count()
}
