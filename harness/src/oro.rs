//! Runs the real `oro` command, contained in a scratch directory.
use std::io::Read;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn binary() -> PathBuf {
    PathBuf::from(std::env::var("VP_ORO").unwrap_or_else(|_| "/verif/target/debug/oro".into()))
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    pub cwd: PathBuf,
    pub home: PathBuf,
    pub limit: Option<Duration>,
    pub stdin: String,
}

#[derive(Clone, Debug)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub hang: bool,
    pub out: String,
    pub err: String,
}

impl Ran {
    /// ok / error / panic / killed / hang
    pub fn class(&self) -> &'static str {
        if self.hang {
            return "hang";
        }
        match (self.code, self.signal) {
            (Some(0), _) => "ok",
            (Some(101), _) => "panic",
            (Some(_), _) => "error",
            _ => "killed",
        }
    }
}

pub fn kill_group(pid: u32) {
    // only ever the process group made for the command we started
    unsafe {
        libc::kill(-(pid as i32), libc::SIGKILL);
    }
}

pub fn run(r: &Run) -> Ran {
    let mut c = Command::new(binary());
    c.args(&r.args)
        .env_clear()
        .env("PATH", "/usr/local/bin:/usr/bin:/bin")
        .env("HOME", &r.home)
        .env("CI", "1")
        .env("NO_COLOR", "1")
        .env("RUST_BACKTRACE", "0")
        .current_dir(&r.cwd)
        .stdin(if r.stdin.is_empty() { Stdio::null() } else { Stdio::piped() })
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .process_group(0);
    for (k, v) in &r.env {
        c.env(k, v);
    }
    let mut ch = c.spawn().expect("spawn oro");
    let pid = ch.id();
    if !r.stdin.is_empty() {
        use std::io::Write;
        let mut i = ch.stdin.take().unwrap();
        let _ = i.write_all(r.stdin.as_bytes());
    }
    let drain = |mut s: Box<dyn Read + Send>| {
        std::thread::spawn(move || {
            let mut b = vec![];
            let _ = s.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        })
    };
    let o = drain(Box::new(ch.stdout.take().unwrap()));
    let e = drain(Box::new(ch.stderr.take().unwrap()));
    let limit = r.limit.unwrap_or(Duration::from_secs(30));
    let t = Instant::now();
    let mut hang = false;
    let st = loop {
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > limit => {
                hang = true;
                kill_group(pid);
                break ch.wait().unwrap();
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    kill_group(pid);
    use std::os::unix::process::ExitStatusExt;
    Ran {
        code: st.code(),
        signal: st.signal(),
        hang,
        out: o.join().unwrap_or_default(),
        err: e.join().unwrap_or_default(),
    }
}

/// A project with a home and a cache of its own.
pub struct Project {
    pub base: PathBuf,
    pub root: PathBuf,
    pub home: PathBuf,
    pub cache: PathBuf,
}

impl Project {
    pub fn new(tag: &str) -> Self {
        let base = crate::util::scratch(tag);
        let (root, home, cache) = (base.join("proj"), base.join("home"), base.join("cache"));
        for d in [&root, &home, &cache] {
            std::fs::create_dir_all(d).unwrap();
        }
        Project { base, root, home, cache }
    }
    pub fn oro(&self, args: &[&str]) -> Run {
        Run {
            args: args.iter().map(|s| s.to_string()).collect(),
            cwd: self.root.clone(),
            home: self.home.clone(),
            ..Default::default()
        }
    }
}

impl Drop for Project {
    fn drop(&mut self) {
        if std::env::var("VP_KEEP").is_err() {
            crate::util::rm_scratch(&self.base);
        }
    }
}

/// Everything below a directory: (relative path, kind + content).
pub fn listing(dir: &Path) -> Vec<(String, String)> {
    fn go(base: &Path, d: &Path, out: &mut Vec<(String, String)>) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let Ok(m) = p.symlink_metadata() else { continue };
            if m.is_symlink() {
                out.push((rel, format!("link {}", std::fs::read_link(&p).unwrap().display())));
            } else if m.is_dir() {
                out.push((rel, "dir".into()));
                go(base, &p, out);
            } else {
                let b = std::fs::read(&p).unwrap_or_default();
                out.push((rel, format!("file {}", ssri::Integrity::from(&b))));
            }
        }
    }
    let mut out = vec![];
    go(dir, dir, &mut out);
    out.sort();
    out
}

pub fn digest(l: &[(String, String)]) -> String {
    let s: String = l.iter().map(|(a, b)| format!("{a}\n{b}\n")).collect();
    ssri::Integrity::from(s.as_bytes()).to_string()
}
