//! First runs, consent to telemetry, and what's sent.
use crate::auth::kdl_str;
use crate::login::pty;
use crate::oro::{binary, kill_group, Project};
use crate::server::{Resp, Server};
use kdl::{KdlDocument, KdlNode};
use serde_json::{json, Value};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const SECRETS: [&str; 4] = ["hidden-cli-token", "hidden-file-token", "hidden-url-pass", "hidden-cli-pass"];

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap()
}

fn render(f: &Value, dsns: &dyn Fn(&str) -> String) -> Option<String> {
    if f["there"] != true {
        return None;
    }
    let form = f["form"].as_u64().unwrap();
    let extra = f["extra"].as_u64().unwrap();
    let say = &f["say"];
    let mut nodes = vec![];
    let val = |on: &str, k: u64| match (on, k % 4) {
        ("on", 0 | 1) => " true".to_string(),
        ("on", 2) => " \"true\"".to_string(),
        ("on", _) => "".to_string(),
        (_, 2) => " \"false\"".to_string(),
        _ => " false".to_string(),
    };
    if extra & 2 != 0 {
        nodes.push("retries 0".to_string());
    }
    if !s(say, "tel").is_empty() {
        nodes.push(format!("telemetry{}", val(s(say, "tel"), form)));
    }
    if extra & 2 != 0 {
        nodes.push(format!("auth {{ \"http://127.0.0.8:1/\" token={}; }}", kdl_str(SECRETS[1])));
        nodes.push("scoped-registries \"@far\"=\"http://127.0.0.8:1/\"".into());
    }
    if !s(say, "first").is_empty() {
        nodes.push(format!("first-time{}", val(s(say, "first"), form / 4)));
    }
    if !s(say, "dsn").is_empty() {
        nodes.push(format!("sentry-dsn {}", kdl_str(&dsns(s(say, "dsn")))));
    }
    let mut o = String::new();
    if extra & 1 != 0 {
        o.push_str("// note 1\n");
    }
    if extra & 4 != 0 {
        o.push_str("other 1 {\n    telemetry true\n    a \"b\" c=1\n}\n");
    }
    let needed = f["second"] == true;
    if nodes.is_empty() {
        o.push_str(match form % 3 {
            0 => "options\n",
            1 => "options {\n}\n",
            _ if needed => "options {}\n",
            _ => "",
        });
    } else if form / 3 % 4 == 0 {
        o.push_str(&format!("options {{ {}; }}\n", nodes.join("; ")));
    } else {
        let (ind, note) = if form / 3 % 4 == 1 { ("\t", " // note 2") } else { ("    ", "") };
        o.push_str("options {\n");
        for (i, n) in nodes.iter().enumerate() {
            o.push_str(&format!("{ind}{n}{}\n", if i == 0 && extra & 1 != 0 { note } else { "" }));
        }
        if extra & 4 != 0 {
            o.push_str(&format!("{ind}/-telemetry true\n"));
        }
        o.push('}');
        if form / 3 % 4 != 2 {
            o.push('\n');
        }
    }
    if needed {
        o.push_str(&format!("\noptions {{\n    telemetry {}\n    first-time {}\n}}\n", form % 2 == 0, form / 2 % 2 == 0));
    }
    Some(o)
}

fn flat(n: &KdlNode) -> String {
    let es: Vec<_> = n.entries().iter().map(|e| format!("{:?}={:?}", e.name().map(|n| n.value().to_string()), e.value())).collect();
    let cs: Vec<_> = n.children().map(|c| c.nodes().iter().map(flat).collect()).unwrap_or_default();
    format!("{} {es:?} {cs:?}", n.name().value())
}

/// (telemetry, first-time, everything else)
fn parse(t: &Option<String>) -> Option<(String, String, String)> {
    let d: KdlDocument = t.as_deref().unwrap_or("").parse().ok()?;
    let (mut tel, mut first, mut rest) = (String::new(), String::new(), vec![]);
    let mut seen = false;
    for n in d.nodes() {
        if n.name().value() == "options" && !seen {
            seen = true;
            let mut inner = vec![];
            for c in n.children().map(|c| c.nodes()).unwrap_or(&[]) {
                let to = match c.name().value() {
                    "telemetry" => &mut tel,
                    "first-time" => &mut first,
                    _ => {
                        inner.push(flat(c));
                        continue;
                    }
                };
                *to = match c.entries() {
                    [] if c.children().is_none() => "on".into(),
                    [e] if e.name().is_none() => match (e.value().as_bool(), e.value().as_string()) {
                        (Some(true), _) | (_, Some("true")) => "on".into(),
                        (Some(false), _) | (_, Some("false")) => "off".into(),
                        _ => "odd".into(),
                    },
                    _ => "odd".into(),
                };
            }
            if !inner.is_empty() || !n.entries().is_empty() {
                rest.push(format!("options {inner:?} {}", n.entries().len()));
            }
        } else {
            rest.push(flat(n));
        }
    }
    let notes: Vec<&str> = t.as_deref().unwrap_or("").match_indices("// note ").map(|(i, _)| &t.as_ref().unwrap()[i..i + 9]).collect();
    Some((tel, first, format!("{rest:?} {notes:?}")))
}

struct Out {
    outcome: &'static str,
    asked: bool,
    text: String,
}

struct How<'a> {
    args: Vec<String>,
    env: Vec<(String, String)>,
    tty: &'a str,
    ans: &'a str,
    how: u64,
    pre: u64,
    kill: u64,
}

fn go(p: &Project, h: &How, under: &Path) -> Out {
    let mut c = Command::new(binary());
    c.args(&h.args).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &p.home).env("NO_COLOR", "1").env("TERM", "xterm")
        .env("LANG", "C.UTF-8").env("RUST_BACKTRACE", "0").current_dir(&p.root);
    for (k, v) in &h.env {
        c.env(k, v);
    }
    if h.kill > 0 {
        c.env("LD_PRELOAD", std::env::var("VP_SHIM").expect("VP_SHIM")).env("VP_CRASH_ROOT", under).env("VP_CRASH_AT", h.kill.to_string());
    }
    let (master, slave) = pty();
    let fd = |on: bool| if on { Stdio::from(slave.try_clone().unwrap()) } else { Stdio::piped() };
    let (i, o, e) = match h.tty {
        "all" => (true, true, true),
        "in" => (true, false, true),
        "out" => (false, true, false),
        _ => (false, false, false),
    };
    c.stdin(if i { fd(true) } else { Stdio::null() }).stdout(fd(o)).stderr(fd(e));
    let ctl = if i { 0 } else if o { 1 } else { -1 };
    unsafe {
        c.pre_exec(move || {
            libc::setsid();
            if ctl >= 0 {
                libc::ioctl(ctl, libc::TIOCSCTTY as _, 0);
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("spawn oro");
    drop(c);
    drop(slave);
    let pid = ch.id();
    let screen: Arc<Mutex<String>> = Default::default();
    let mut ts = vec![];
    for r in [ch.stdout.take().map(|x| Box::new(x) as Box<dyn Read + Send>), ch.stderr.take().map(|x| Box::new(x) as Box<dyn Read + Send>)].into_iter().flatten() {
        let screen = screen.clone();
        ts.push(std::thread::spawn(move || {
            let mut r = r;
            let mut b = [0u8; 4096];
            while let Ok(n) = r.read(&mut b) {
                if n == 0 {
                    break;
                }
                screen.lock().unwrap().push_str(&String::from_utf8_lossy(&b[..n]));
            }
        }));
    }
    unsafe {
        let f = libc::fcntl(master.as_raw_fd(), libc::F_GETFL);
        libc::fcntl(master.as_raw_fd(), libc::F_SETFL, f | libc::O_NONBLOCK);
    }
    let mut master: Option<File> = Some(master);
    let read = |m: &mut Option<File>| {
        let mut b = [0u8; 4096];
        if let Some(m) = m {
            while let Ok(n) = m.read(&mut b) {
                if n == 0 {
                    break;
                }
                screen.lock().unwrap().push_str(&String::from_utf8_lossy(&b[..n]));
            }
        }
    };
    let t = Instant::now();
    let (mut asked, mut hang) = (false, false);
    let st = loop {
        read(&mut master);
        if !asked && screen.lock().unwrap().contains("telemetry?") {
            asked = true;
            std::thread::sleep(Duration::from_millis(40));
            let pre = ["", "\r", "q", "maybe ", "\x1b[A", " \r\r"][h.pre as usize % 6].replace('y', "e");
            let keys = pre + match (h.ans, h.how % 2) {
                ("yes", 0) => "y",
                ("yes", _) => "Y",
                ("no", 0) => "n",
                ("no", _) => "N",
                (_, 0) => "\x03",
                _ => "",
            };
            if let Some(m) = &mut master {
                for k in keys.as_bytes() {
                    let _ = m.write_all(&[*k]);
                    std::thread::sleep(Duration::from_millis(if *k == 0x1b || *k == b'[' { 0 } else { 5 }));
                }
            }
            if h.ans == "cut" && h.how % 2 == 1 {
                // hangs up
                std::thread::sleep(Duration::from_millis(30));
                master = None;
            }
        }
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(40) => {
                hang = true;
                kill_group(pid);
                break ch.wait().unwrap();
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    kill_group(pid);
    read(&mut master);
    for t in ts {
        let _ = t.join();
    }
    let outcome = match (st.code(), st.signal()) {
        _ if hang => "hang",
        (_, Some(libc::SIGKILL)) if h.kill > 0 => "crashed",
        (Some(0), _) => "ok",
        (Some(101), _) => "panic",
        (Some(_), _) => "error",
        _ => "killed",
    };
    let text = screen.lock().unwrap().clone();
    Out { outcome, asked, text }
}

pub fn run_telemetry(scn: Value) -> Value {
    let p = Project::new("telemetry");
    let base = p.base.clone();
    let reg = Server::start(Arc::new(move |r| {
        if r.path.contains("there") {
            Resp::json(&json!({"name": "there", "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": "there", "version": "1.0.0",
                "dist": {"tarball": "http://127.0.0.1:1/t.tgz", "integrity": "sha512-AAAA"}}}}))
        } else {
            Resp::new(404, "{}")
        }
    }));
    let sinks: Vec<Server> = (0..2).map(|_| Server::start(Arc::new(|_| Resp::new(200, "{}")))).collect();
    let addrs: Vec<_> = sinks.iter().map(|s| s.addr).collect();
    let dsns = move |d: &str| match d {
        "D1" => format!("http://key@{}/1", addrs[0]),
        "D2" => format!("http://key@{}/2", addrs[1]),
        _ => "http://key@127.0.0.1:1/3".to_string(),
    };
    // what's killed is killed for what it does in here
    let under = p.home.clone();
    let glob = p.home.join(".config/orogene/oro.kdl");
    let conf = p.home.join("named/their.kdl");
    let proj = p.root.join("oro.kdl");
    let blocked = scn["blocked"] == true;
    let mut now = vec![];
    for (f, k) in [(&glob, "glob"), (&conf, "conf"), (&proj, "proj")] {
        if blocked && k == "glob" {
            std::fs::write(p.home.join(".config"), "in the way").unwrap();
            now.push(None);
            continue;
        }
        let t = render(&scn[k], &dsns);
        if let Some(t) = &t {
            std::fs::create_dir_all(f.parent().unwrap()).unwrap();
            std::fs::write(f, t).unwrap();
        }
        now.push(t);
    }
    let mut o = scn.clone();
    let mut crashed = false;
    for i in 0..scn["steps"].as_array().unwrap().len() {
        let q = scn["steps"][i].clone();
        let url = match s(&q, "sec") {
            "url" => reg.url().replace("http://", &format!("http://someone:{}@", SECRETS[2])),
            _ => reg.url(),
        };
        let mut args: Vec<String> = match s(&q, "cmd") {
            "apply" => vec!["apply".into()],
            "ok" => vec!["view".into(), "there".into()],
            _ => vec!["view".into(), "missing".into()],
        };
        args.extend(["--registry".into(), url, "--retries=0".into(), "--cache".into(), p.cache.display().to_string()]);
        if q["named"] == true {
            args.extend(["--config".into(), conf.display().to_string()]);
        }
        let c = &q["cli"];
        for (o, on, off) in [("tel", "--telemetry", "--no-telemetry"), ("first", "--first-time", "--no-first-time")] {
            match s(c, o) {
                "on" => args.push(on.into()),
                "off" => args.push(off.into()),
                _ => {}
            }
        }
        if !s(c, "dsn").is_empty() {
            args.push(format!("--sentry-dsn={}", dsns(s(c, "dsn"))));
        }
        match s(&q, "sec") {
            "cli" => args.extend(["--auth".into(), format!("{{http://127.0.0.7:1/}}token={}", SECRETS[0])]),
            "env" => args.extend(["--auth={http://127.0.0.7:1/}username=someone".into(), format!("--auth={{http://127.0.0.7:1/}}password={}", SECRETS[3])]),
            _ => {}
        }
        let mut env: Vec<(String, String)> = vec![];
        let e = &q["env"];
        for (k, n) in [("tel", "TELEMETRY"), ("first", "FIRST_TIME")] {
            if !s(e, k).is_empty() {
                env.push((format!("ORO_CONFIG_{n}"), (s(e, k) == "on").to_string()));
            }
        }
        if !s(e, "dsn").is_empty() {
            env.push(("ORO_CONFIG_SENTRY_DSN".into(), dsns(s(e, "dsn"))));
        }
        match s(&q, "ci") {
            "" => {}
            "gitlab" => env.push(("GITLAB_CI".into(), "1".into())),
            v => env.push(("CI".into(), v.into())),
        }
        let h = How { args, env, tty: s(&q, "tty"), ans: s(&q, "ans"), how: q["how"].as_u64().unwrap(), pre: q["pre"].as_u64().unwrap(), kill: q["kill"].as_u64().unwrap() };
        for k in &sinks {
            k.log.lock().unwrap().clear();
        }
        let r = go(&p, &h, &under);
        let was = now.clone();
        now = [&glob, &conf, &proj].iter().map(|f| std::fs::read_to_string(f).ok()).collect();
        let mut runs = 1;
        let mut text = r.text.clone();
        if r.outcome == "error" && h.kill == 0 && !r.asked {
            for _ in 1..q["reps"].as_u64().unwrap() {
                let r = go(&p, &h, &under);
                text.push_str(&r.text);
                runs += 1;
            }
        }
        if std::env::var("VP_SHOW").is_ok() {
            eprintln!("{:?} {:?}\n{}\n{}\n-- {:?}\n{:?}\n==", h.args, h.env, r.outcome, r.text, was, now);
        }
        let mut leaks = vec![];
        let mut sent = vec![];
        let has = |b: &[u8]| SECRETS.iter().any(|s| b.windows(s.len()).any(|w| w == s.as_bytes()));
        for (j, k) in sinks.iter().enumerate() {
            for q in k.log.lock().unwrap().iter() {
                sent.push(format!("D{}", j + 1));
                if has(&q.body) || has(format!("{} {:?}", q.path, q.headers).as_bytes()) {
                    leaks.push("report");
                }
            }
        }
        for f in std::fs::read_dir(p.cache.join("_logs")).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
            if has(&std::fs::read(f.path()).unwrap_or_default()) {
                leaks.push("log");
            }
        }
        leaks.sort();
        leaks.dedup();
        crashed |= r.outcome == "crashed";
        let mut strays = vec![];
        if !crashed {
            for f in [&glob, &conf] {
                for e in std::fs::read_dir(f.parent().unwrap()).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
                    if e.path() != *f {
                        strays.push(e.file_name().to_string_lossy().into_owned());
                    }
                }
            }
        }
        let seen = |j: usize| match (parse(&was[j]), parse(&now[j])) {
            (Some(a), Some(b)) => json!({"tel": b.0, "first": b.1, "rest": a.2 == b.2, "same": was[j] == now[j]}),
            _ => json!({"tel": "broken", "first": "broken", "rest": false, "same": was[j] == now[j]}),
        };
        o["steps"][i]["did"] = json!({"outcome": r.outcome, "asked": r.asked, "glob": seen(0), "conf": seen(1), "proj": was[2] == now[2],
            "sent": sent, "leaks": leaks, "strays": strays, "runs": runs});
    }
    let _ = base;
    o
}
