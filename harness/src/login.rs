//! Logging in by asking the registry.
use crate::auth::{enc, kdl_str};
use crate::oro::{binary, kill_group, Project};
use crate::server::{Handler, Req, Resp, Server};
use kdl::KdlDocument;
use serde_json::{json, Value};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const USERS: [&str; 4] = ["someone", "some one/else", "üser:x", "a%41+b?c"];
const PASSES: [&str; 4] = ["pass-secret-1", "p\"w\\secret{}", "sëcret paß", " secret:x "];
const CODES: [&str; 2] = ["123456", "00 7-x"];

struct State {
    reqs: Vec<Value>,
    last: Instant,
    polls: usize,
    kill: bool,
    tokens: Vec<String>,
}

pub fn pty() -> (File, File) {
    let (mut m, mut s) = (0, 0);
    let r = unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) };
    assert_eq!(r, 0, "openpty");
    unsafe {
        libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
        libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC);
        (File::from_raw_fd(m), File::from_raw_fd(s))
    }
}

pub fn run_login(scn: Value) -> Value {
    let s = |k: &str| scn[k].as_str().unwrap().to_string();
    let way = s("way");
    let (user, pass, code) = (
        USERS[scn["user"].as_u64().unwrap() as usize - 1],
        PASSES[scn["pass"].as_u64().unwrap() as usize - 1],
        CODES[scn["code"].as_u64().unwrap() as usize - 1],
    );
    let state = Arc::new(Mutex::new(State { reqs: vec![], last: Instant::now(), polls: 0, kill: false, tokens: vec![] }));
    let p = Project::new("login");
    let path: Vec<String> = scn["path"].as_array().unwrap().iter().map(|x| enc(x.as_str().unwrap())).collect();
    let base = format!("/{}", path.iter().map(|x| format!("{x}/")).collect::<String>());
    let scope = match s("scope").as_str() {
        "" => "".to_string(),
        "uml" => "ümläut".to_string(),
        x => format!("{}{x}", if scn["sign"] == true { "@" } else { "" }),
    };
    let kill = scn["kill"].as_u64().unwrap() as usize;
    let done: Arc<Mutex<String>> = Default::default();
    let make = |name: &'static str| -> Handler {
        let (state, scn, done, base, scope, way) = (state.clone(), scn.clone(), done.clone(), base.clone(), scope.clone(), way.clone());
        Arc::new(move |r: &Req| {
            let mut st = state.lock().unwrap();
            let gap = st.last.elapsed().as_millis() as u64;
            let body: Value = serde_json::from_slice(&r.body).unwrap_or(Value::Null);
            let otp = r.headers_all("npm-otp");
            let put = format!("{base}-/user/org.couchdb.user:");
            let named = r.path.strip_prefix(&put).map(crate::auth::dec);
            let what = if r.method == "POST" && r.path == format!("{base}-/v1/login") && way == "web" && name == "own" {
                "ask"
            } else if r.method == "PUT" && way == "legacy" && named.as_deref() == Some(user) && name == "own" {
                if otp.is_empty() { "ask" } else { "otp" }
            } else if r.method == "GET" && done.lock().unwrap().ends_with(&r.path) && r.path.contains("session") {
                "poll"
            } else {
                "other"
            };
            let mut proper = r.headers_all("npm-command") == ["login"] && r.headers_all("x-oro-registry").is_empty();
            if what == "ask" || what == "otp" {
                proper &= r.headers_all("npm-auth-type") == [way.as_str()];
                proper &= scn["scope"] == "uml" || r.headers_all("npm-scope") == if scope.is_empty() { vec![] } else { vec![scope.clone()] };
            }
            if what == "otp" {
                proper &= otp == [code];
            }
            if (what == "ask" || what == "otp") && way == "legacy" {
                proper &= body["_id"] == format!("org.couchdb.user:{user}") && body["name"] == user && body["password"] == pass
                    && body["type"] == "user" && body["roles"] == json!([]) && body["date"].is_string();
            }
            let all = format!("{} {:?} {}", crate::auth::dec(&r.path), r.headers, String::from_utf8_lossy(&r.body));
            let i = st.reqs.len() + 1;
            st.reqs.push(json!({"what": what, "gap": gap, "proper": proper, "otp": otp.len(), "auth": r.headers_all("authorization").len(),
                "leak": all.contains(pass) || all.contains(code)}));
            if i == kill {
                st.kill = true;
                drop(st);
                std::thread::sleep(Duration::from_millis(1500));
                return Resp::new(200, "{}");
            }
            let rep = match what {
                "ask" => scn["ask"].clone(),
                "otp" => scn["otp"].clone(),
                "poll" => {
                    st.polls += 1;
                    scn["polls"][st.polls - 1].clone()
                }
                _ => json!({"k": "no", "form": "404"}),
            };
            let page = format!("http://page.example/log in?next=%2F{i}&x='\"$HOME");
            let page = page.as_str();
            let d = done.lock().unwrap().clone();
            let form = rep["form"].as_str().unwrap_or("");
            let mut tok = String::new();
            let resp = match (rep["k"].as_str().unwrap_or("no"), form) {
                ("offer", _) if way == "web" => Resp::json(&json!({"loginUrl": page, "doneUrl": d})),
                ("offer", "header") => Resp { status: 401, ..Resp::json(&json!({"authUrl": page, "doneUrl": d})) }.header("www-authenticate", "OTP"),
                ("offer", _) => Resp { status: 401, ..Resp::json(&json!({"authUrl": page, "doneUrl": d, "error": "You must provide a one-time pass."})) },
                ("otp", "header") => Resp::new(401, "{}").header("www-authenticate", "OTP"),
                ("otp", "header2") => Resp::new(401, "nope").header("www-authenticate", "ipaddress, otp"),
                ("otp", "text") => Resp::new(401, "one-time password needed"),
                ("otp", "text2") => Resp::new(401, "{\"error\": \"This needs a One-Time Pass\"}"),
                ("otp", _) => Resp { status: 401, ..Resp::json(&json!({"authUrl": page})) }.header("www-authenticate", "otp"),
                ("token", f) => {
                    tok = match f {
                        "odd" => format!("npm_{i}+/=\\\"ö secret"),
                        _ => format!("tok-secret-{i}"),
                    };
                    let mut v = json!({"token": tok});
                    if f == "extra" {
                        v = json!({"ok": true, "id": "x", "token": tok, "rev": null});
                    }
                    Resp { status: if f == "made" && what != "poll" { 201 } else { 200 }, ..Resp::json(&v) }
                }
                ("wait", _) => Resp::new(202, "{}").header("retry-after", &rep["secs"].to_string()),
                (_, "junk") => Resp::new(200, "<html>"),
                (_, "empty") => Resp::new(200, "{}"),
                (_, "null") => Resp::new(200, "{\"token\": null}"),
                (_, "list") => Resp::new(200, "[]"),
                (_, "nodone") => Resp::json(&json!({"loginUrl": page})),
                (_, "nopage") => Resp::json(&json!({"doneUrl": d})),
                (_, "202") => Resp::new(202, "{\"token\": \"early-secret\"}"),
                (_, "202soon") => Resp::new(202, "{}").header("retry-after", "Wed, 21 Oct 2065 07:28:00 GMT"),
                (_, "202minus") => Resp::new(202, "{}").header("retry-after", "-1"),
                (_, "202half") => Resp::new(202, "{}").header("retry-after", "0.5"),
                (_, "204") => Resp::new(204, ""),
                (_, "401basic") => Resp::new(401, "{\"token\": \"no-secret\"}").header("www-authenticate", "Basic realm=x"),
                (_, "401bearer") => Resp::new(401, "{}").header("www-authenticate", "Bearer"),
                (_, "401otp") => Resp::new(401, "{}").header("www-authenticate", "OTP"),
                (_, "401otppage") => Resp { status: 401, ..Resp::json(&json!({"authUrl": page, "doneUrl": d})) }.header("www-authenticate", "OTP"),
                (_, "401page") => Resp { status: 401, ..Resp::json(&json!({"authUrl": page, "doneUrl": d})) },
                (_, n) => Resp::new(n.parse().unwrap_or(404), "{\"token\": \"no-secret\"}"),
            };
            st.tokens.push(tok);
            st.last = Instant::now();
            resp
        })
    };
    let own = Server::start(make("own"));
    let other = Server::start(make("other"));
    let root = own.url().trim_end_matches('/').to_string();
    let reg = format!("{root}{base}");
    *done.lock().unwrap() = match s("done").as_str() {
        "own" => format!("{reg}-/v1/done?session=%2Fx"),
        "outside" => format!("{root}/elsewhere/-/v1/done?session=%2Fx"),
        _ => format!("{}/npm/-/v1/done?session=%2Fx", other.url().trim_end_matches('/')),
    };
    // Something to open pages with
    let bin = p.base.join("bin");
    std::fs::create_dir_all(&bin).unwrap();
    let pages = p.base.join("pages");
    let opener = bin.join("xdg-open");
    std::fs::write(&opener, format!("#!/bin/sh\nprintf '%s|%s\\n' \"$#\" \"$1\" >> '{}'\n", pages.display())).unwrap();
    std::fs::set_permissions(&opener, std::fs::Permissions::from_mode(0o755)).unwrap();
    // The file
    let file = if scn["named"] == true { p.base.join("mine.kdl") } else { p.home.join(".config/orogene/oro.kdl") };
    let else_ = "        \"http://127.0.0.9:1/\" token=\"theirs\"\n";
    let o = |x: &str| Some(format!("options {{\n    auth {{\n{x}{else_}    }}\n}}\n"));
    let me = kdl_str(if scn["slash"] == true { &reg } else { reg.trim_end_matches('/') });
    let text = match s("pre").as_str() {
        "none" => None,
        "empty" => Some(String::new()),
        "elsewhere" => o(""),
        "token" => o(&format!("        {me} token=\"before\"\n")),
        "basic" => o(&format!("        {me} username=\"u\" password=\"before\"\n")),
        _ => o(&format!("        {me} legacy-auth=\"YmVmb3Jl\"\n")),
    };
    std::fs::create_dir_all(file.parent().unwrap()).unwrap();
    if let Some(t) = &text {
        std::fs::write(&file, t).unwrap();
    }
    let mut args: Vec<String> = vec!["login".into(), "--auth-type".into(), way.clone(), "--retries".into(), "0".into(), "--registry".into(),
        if scn["slash"] == true { reg.clone() } else { reg.trim_end_matches('/').into() }];
    if scn["named"] == true {
        args.extend(["--config".into(), file.to_string_lossy().into_owned()]);
    }
    if !scope.is_empty() {
        args.extend(["--scope".into(), scope.clone()]);
    }
    args.extend(["--cache".into(), p.cache.to_string_lossy().into_owned()]);
    let tty = scn["tty"] == true;
    let mut c = Command::new(binary());
    c.args(&args).env_clear().env("PATH", format!("{}:/usr/bin:/bin", bin.display())).env("HOME", &p.home).env("NO_COLOR", "1")
        .env("CI", "1").env("TERM", "dumb").env("LANG", "C.UTF-8").current_dir(&p.root).stdout(Stdio::piped());
    let (mut master, slave) = pty();
    if tty {
        c.stdin(slave.try_clone().unwrap()).stderr(slave.try_clone().unwrap());
    } else {
        c.stdin(Stdio::null()).stderr(Stdio::piped());
    }
    unsafe {
        c.pre_exec(move || {
            libc::setsid();
            if tty {
                libc::ioctl(0, libc::TIOCSCTTY as _, 0);
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().expect("spawn oro");
    drop(c);
    drop(slave);
    let pid = ch.id();
    let mut stdout = ch.stdout.take().unwrap();
    let err = ch.stderr.take().map(|mut e| {
        std::thread::spawn(move || {
            let mut b = vec![];
            let _ = e.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        })
    });
    let out = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = stdout.read_to_end(&mut b);
        String::from_utf8_lossy(&b).into_owned()
    });
    // Answers what it's asked for
    unsafe {
        let f = libc::fcntl(master.as_raw_fd(), libc::F_GETFL);
        libc::fcntl(master.as_raw_fd(), libc::F_SETFL, f | libc::O_NONBLOCK);
    }
    let mut screen = String::new();
    let mut told = 0;
    let t = Instant::now();
    let mut hang = false;
    let mut buf = [0u8; 4096];
    let st = loop {
        let mut raw = vec![];
        while let Ok(n) = master.read(&mut buf) {
            if n == 0 {
                break;
            }
            raw.extend(&buf[..n]);
        }
        screen.push_str(&String::from_utf8_lossy(&raw));
        let (want, ans) = [("Username:", user), ("Password:", pass), ("Enter OTP:", code)].get(told).copied().unwrap_or(("\0", ""));
        if tty && screen.contains(want) {
            told += 1;
            // (typed before it's ready, a password would be echoed by the terminal)
            std::thread::sleep(Duration::from_millis(60));
            let _ = master.write_all(format!("{ans}\n").as_bytes());
        }
        if state.lock().unwrap().kill {
            kill_group(pid);
        }
        match ch.try_wait().unwrap() {
            Some(s) => break s,
            None if t.elapsed() > Duration::from_secs(30) => {
                hang = true;
                kill_group(pid);
                break ch.wait().unwrap();
            }
            None => std::thread::sleep(Duration::from_millis(3)),
        }
    };
    kill_group(pid);
    while let Ok(n) = master.read(&mut buf) {
        if n == 0 {
            break;
        }
        screen.push_str(&String::from_utf8_lossy(&buf[..n]));
    }
    let stdout = out.join().unwrap_or_default() + &err.map(|e| e.join().unwrap_or_default()).unwrap_or_default();
    let outcome = match st.code() {
        _ if hang => "hang",
        Some(0) => "ok",
        Some(101) => "panic",
        Some(_) => "error",
        None => "killed",
    };
    let raw = std::fs::read_to_string(&file).ok();
    if std::env::var("VP_SHOW").is_ok() {
        eprintln!("{args:?}\n{screen}\n{stdout}\n--\n{}\n==", raw.clone().unwrap_or_default());
    }
    let mut stored = -1;
    let (mut scoped, mut rest) = (scope.is_empty(), text.as_deref().map(|t| !t.contains("theirs")).unwrap_or(true));
    let st = state.lock().unwrap();
    if let Ok(d) = raw.clone().unwrap_or_default().parse::<KdlDocument>() {
        if let Some(o) = d.get("options").and_then(|o| o.children()) {
            for n in o.get("auth").and_then(|a| a.children()).map(|a| a.nodes()).unwrap_or(&[]) {
                let tok = n.get("token").and_then(|t| t.as_string()).unwrap_or("").to_string();
                if n.name().value() == "http://127.0.0.9:1/" {
                    rest = tok == "theirs";
                } else if n.name().value().trim_end_matches('/') == reg.trim_end_matches('/') && n.entries().len() == 1 && stored == -1 {
                    stored = st.tokens.iter().position(|t| !t.is_empty() && *t == tok).map(|i| i as i64 + 1).unwrap_or(-2);
                } else {
                    stored = -3;
                }
            }
            for n in o.get("scoped-registries").and_then(|a| a.children()).map(|a| a.nodes()).unwrap_or(&[]) {
                scoped = n.name().value().trim_start_matches('@') == scope.trim_start_matches('@')
                    && n.get(0).and_then(|u| u.as_string()).map(|u| u.trim_end_matches('/') == reg.trim_end_matches('/')).unwrap_or(false);
            }
        }
    }
    let opened: Vec<String> = std::fs::read_to_string(&pages).unwrap_or_default().lines()
        .map(|l| match st.reqs.iter().enumerate().any(|(i, _)| l == format!("1|http://page.example/log in?next=%2F{}&x='\"$HOME", i + 1)) {
            true => "p".to_string(),
            false => l.to_string(),
        }).collect();
    let printed = format!("{screen}{stdout}");
    let shown = printed.contains(pass) || st.tokens.iter().any(|t| !t.is_empty() && printed.contains(t.as_str()));
    let mut o = scn.clone();
    o["did"] = json!({"reqs": st.reqs, "outcome": outcome, "stored": stored, "scoped": scoped, "rest": rest, "kept": raw == text, "opened": opened, "shown": shown});
    o
}
