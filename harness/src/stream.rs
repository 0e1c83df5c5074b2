//! Packages' contents read as streams: raw tarballs and their entries, validated or not.
use crate::server::{Mode, Resp, Server};
use crate::tgz::{sha512, tar_bytes, Ent, LongNames};
use crate::util::*;
use futures::{AsyncReadExt, StreamExt};
use nassun::{NassunOpts, PackageResolution};
use serde_json::{json, Value};
use std::io::Write;
use std::path::Path;
use std::sync::{Arc, Mutex};

fn body(i: usize, size: usize, salt: u64) -> Vec<u8> {
    let mut s = 0x9e3779b97f4a7c15u64.wrapping_mul(i as u64 + 1) ^ salt.wrapping_mul(0xD1342543DE82EF95);
    (0..size)
        .map(|_| {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s as u8
        })
        .collect()
}

fn ents(sc: &Value, tamper: &str, out: &Path) -> Vec<Ent> {
    let fs = sc["files"].as_array().unwrap();
    let last = fs.iter().rposition(|f| f["kind"] == "file" && f["size"] != 0);
    let mut v: Vec<Ent> = fs
        .iter()
        .enumerate()
        .map(|(i, f)| {
            let p = f["path"].as_str().unwrap().replace("{OUT}", &out.to_string_lossy());
            let size = f["size"].as_u64().unwrap() as usize;
            let mut data = body(i, size, 0);
            if tamper == "alter" && Some(i) == last {
                data[size / 2] ^= 1;
            }
            let mut e = Ent::file(&p, data).mode(if f["x"] == true { 0o755 } else { 0o644 });
            match f["kind"].as_str().unwrap() {
                "dir" => e.kind = b'5',
                "link" => {
                    e.kind = b'2';
                    e.link = f["to"].as_str().unwrap().replace("{OUT}", &out.to_string_lossy());
                }
                _ => {}
            }
            e
        })
        .collect();
    if tamper == "swap" {
        v.push(Ent::file("package/extra.js", b"extra\n".to_vec()));
    }
    v
}

fn gzl(data: &[u8], level: u32, mtime: u32) -> Vec<u8> {
    let mut e = flate2::GzBuilder::new().mtime(mtime).write(vec![], flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

/// What's served, of what was published.
fn served(sc: &Value, tamper: &str, out: &Path) -> (Vec<u8>, Option<usize>) {
    let long = match sc["long"].as_str().unwrap() {
        "pax" => LongNames::Pax,
        "gnu" => LongNames::Gnu,
        _ => LongNames::Prefix,
    };
    let tar = tar_bytes(&ents(sc, tamper, out), long);
    let p = gzl(&tar, 6, 0);
    match tamper {
        "tail" => ([&p[..], b"and then some"].concat(), None),
        "big tail" => ([&p[..], &body(999, 200_000, 3)[..]].concat(), None),
        "pad" => (gzl(&[&tar[..], &[0u8; 2048][..], &body(998, 3000, 1)[..]].concat(), 6, 0), None),
        "hdr" => (gzl(&tar, 6, 12345), None),
        "level" => (gzl(&tar, 0, 0), None),
        "flip" => {
            let mut q = p.clone();
            let m = q.len() / 2;
            q[m] ^= 0x10;
            (q, None)
        }
        "trunc" => (p[..p.len() / 2].to_vec(), None),
        "short" => (p[..p.len() - 1].to_vec(), None),
        "empty" => (vec![], None),
        "notgz" => (b"<html>not here</html>\n".repeat(20), None),
        "drop" => {
            let n = p.len() / 2;
            (p, Some(n))
        }
        _ => (p, None),
    }
}

/// As `shasum` has it.
fn sha1(data: &[u8]) -> String {
    crate::tgz::sha1(data).parse::<ssri::Integrity>().unwrap().to_hex().1
}

fn wrong512() -> String {
    sha512(b"something else")
}

fn short(e: impl std::fmt::Debug) -> String {
    format!("{e:?}").chars().take(200).collect()
}

/// Files under a directory: path, kind, contents (by entry) or link target.
fn tree(dir: &Path, known: &[(String, Vec<u8>)]) -> Vec<Value> {
    let mut v = vec![];
    for e in walkdir::WalkDir::new(dir).min_depth(1).sort_by_file_name().into_iter().flatten() {
        let rel = e.path().strip_prefix(dir).unwrap().to_string_lossy().into_owned();
        let ft = e.file_type();
        if ft.is_dir() {
            v.push(json!({"p": rel, "k": "dir", "c": "", "x": false}));
        } else if ft.is_symlink() {
            v.push(json!({"p": rel, "k": "link", "c": std::fs::read_link(e.path()).unwrap().to_string_lossy(), "x": false}));
        } else {
            let d = std::fs::read(e.path()).unwrap();
            let c = known.iter().rev().find(|(_, b)| *b == d).map(|(n, _)| n.clone()).unwrap_or("?".into());
            use std::os::unix::fs::PermissionsExt;
            let x = e.metadata().unwrap().permissions().mode() & 0o111 != 0;
            v.push(json!({"p": rel, "k": "file", "c": c, "x": x}));
        }
    }
    v
}

fn one(sc: Value) -> Value {
    let base = scratch("stream");
    let work = base.join("w/x/y/z");
    std::fs::create_dir_all(&work).unwrap();
    let out = work.join("out");
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(out.join("keep"), "keep\n").unwrap();
    let name = sc["name"].as_str().unwrap().to_string();
    let (right, _) = served(&sc, "none", &out);
    let now: Arc<Mutex<(Vec<u8>, Option<usize>)>> = Arc::new(Mutex::new((right.clone(), None)));
    let url = Arc::new(Mutex::new(String::new()));
    let srv = {
        let (now, url, name, sc, right) = (now.clone(), url.clone(), name.clone(), sc.clone(), right.clone());
        Server::start(Arc::new(move |r| {
            if r.path == "/t.tgz" {
                let (d, n) = now.lock().unwrap().clone();
                let mut resp = Resp::new(200, d);
                if let Some(n) = n {
                    resp = resp.mode(Mode::Truncate(n));
                }
                return resp;
            }
            let mut dist = json!({"tarball": format!("{}t.tgz", url.lock().unwrap())});
            match sc["meta"].as_str().unwrap() {
                "sri" => dist["integrity"] = json!(sha512(&right)),
                "sum" => dist["shasum"] = json!(sha1(&right)),
                "both" => {
                    dist["integrity"] = json!(sha512(&right));
                    dist["shasum"] = json!(sha1(b"other"));
                }
                "badsri" => {
                    dist["integrity"] = json!(wrong512());
                    dist["shasum"] = json!(sha1(&right));
                }
                "badsum" => dist["shasum"] = json!(sha1(b"other")),
                "empty" => dist["integrity"] = json!(""),
                "empty sum" => {
                    dist["integrity"] = json!(" ");
                    dist["shasum"] = json!(sha1(&right));
                }
                "empty badsum" => {
                    dist["integrity"] = json!("");
                    dist["shasum"] = json!(sha1(b"other"));
                }
                _ => {}
            }
            Resp::json(&json!({"name": name, "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": name, "version": "1.0.0", "dist": dist}}}))
        }))
    };
    *url.lock().unwrap() = srv.url();
    let mut rec = sc.clone();
    for (k, a) in rec["asks"].as_array_mut().unwrap().iter_mut().enumerate() {
        let tamper = a["tamper"].as_str().unwrap().to_string();
        let (data, cut) = served(&sc, &tamper, &out);
        let len = data.len();
        let es = ents(&sc, &tamper, &out);
        *now.lock().unwrap() = (data.clone(), cut);
        let dst = work.join(format!("dst{k}"));
        std::fs::create_dir_all(&dst).unwrap();
        if a["dirty"] == true {
            std::fs::create_dir_all(dst.join("package")).unwrap();
            std::fs::write(dst.join("package/a.js"), "old\n").unwrap();
        }
        let before = tree(&base, &[]).into_iter().filter(|v| !v["p"].as_str().unwrap().contains("/dst")).collect::<Vec<_>>();
        let (aa, d2, reg, name, right) = (a.clone(), dst.clone(), srv.url(), name.clone(), right.clone());
        let (via, meta) = (sc["via"].as_str().unwrap().to_string(), sc["meta"].as_str().unwrap().to_string());
        let cache = (sc["cache"] == true).then(|| work.join("cache"));
        let es2 = es.clone();
        let r = guarded(std::time::Duration::from_secs(60), move || {
            async_std::task::block_on(async {
                let mut o = NassunOpts::new().registry(reg.parse().unwrap()).retries(0);
                if let Some(c) = cache {
                    o = o.cache(c);
                }
                let nassun = o.build();
                let spec = format!("{name}@1.0.0");
                let pkg = if via == "lock" {
                    nassun.resolve_from(
                        name.clone(),
                        spec.parse().unwrap(),
                        PackageResolution::Npm {
                            name: name.clone(),
                            version: "1.0.0".parse().unwrap(),
                            tarball: format!("{reg}t.tgz").parse().unwrap(),
                            integrity: match meta.as_str() {
                                "sri" | "both" => Some(sha512(&right).parse().unwrap()),
                                "sum" | "empty sum" => Some(ssri::Integrity::from_hex(sha1(&right), ssri::Algorithm::Sha1).unwrap()),
                                "badsri" => Some(wrong512().parse().unwrap()),
                                "badsum" | "empty badsum" => Some(ssri::Integrity::from_hex(sha1(b"other"), ssri::Algorithm::Sha1).unwrap()),
                                _ => None,
                            },
                        },
                    )
                } else {
                    match nassun.resolve(&spec).await {
                        Ok(p) => p,
                        Err(e) => return json!({"outcome": "unresolved", "why": short(e)}),
                    }
                };
                let sh1 = |d: &[u8]| ssri::Integrity::from_hex(sha1(d), ssri::Algorithm::Sha1).unwrap().to_string();
                let given: ssri::Integrity = match aa["given"].as_str().unwrap() {
                    "right" => sha512(&right),
                    "weak" => sh1(&right),
                    "multi" => format!("{} {}", sh1(b"other"), sha512(&right)),
                    "alts" => format!("{} {}", wrong512(), sha512(&right)),
                    "alts2" => format!("{} {}", sha512(&right), wrong512()),
                    "badweak" => format!("{} {}", sh1(&right), wrong512()),
                    _ => wrong512(),
                }
                .parse()
                .unwrap();
                let chunk = aa["chunk"].as_u64().unwrap() as usize;
                let how = aa["how"].as_str().unwrap();
                if aa["api"] == "tarball" {
                    let t = match how {
                        "meta" => pkg.tarball().await,
                        "given" => pkg.tarball_checked(given).await,
                        _ => pkg.tarball_unchecked().await,
                    };
                    let mut t = match t {
                        Ok(t) => t,
                        Err(e) => return json!({"outcome": "unopened", "why": short(e)}),
                    };
                    let mut got = vec![];
                    let mut buf = vec![0u8; chunk];
                    if aa["dirty"] == true {
                        // Reading nothing isn't reading to the end.
                        match t.read(&mut []).await {
                            Ok(0) => {}
                            o => return json!({"outcome": "error", "n": 0, "prefix": true, "kind": "nothing", "again": short(o)}),
                        }
                    }
                    loop {
                        match t.read(&mut buf).await {
                            Ok(0) => {
                                let again = short(t.read(&mut buf).await.map_err(|e| e.kind()));
                                return json!({"outcome": "ok", "n": got.len(), "prefix": data.starts_with(&got), "all": data == got, "kind": "", "again": again});
                            }
                            Ok(n) => got.extend_from_slice(&buf[..n]),
                            Err(e) => {
                                let mut more = "end";
                                for _ in 0..3 {
                                    match t.read(&mut buf).await {
                                        Ok(n) if n > 0 => more = "data",
                                        _ => {}
                                    }
                                }
                                return json!({"outcome": "error", "n": got.len(), "prefix": data.starts_with(&got), "all": false, "kind": format!("{:?}", e.kind()), "again": more});
                            }
                        }
                    }
                }
                let s = match how {
                    "meta" => pkg.entries().await,
                    "given" => pkg.entries_checked(given).await,
                    _ => pkg.entries_unchecked().await,
                };
                let mut s = match s {
                    Ok(s) => s,
                    Err(e) => return json!({"outcome": "unopened", "why": short(e)}),
                };
                let eat = aa["eat"].as_str().unwrap();
                let mut list = vec![];
                let mut buf = vec![0u8; chunk];
                let mut err = None;
                let mut i = 0;
                while let Some(r) = s.next().await {
                    let mut e = match r {
                        Ok(e) => e,
                        Err(e) => {
                            err = Some(short(e));
                            break;
                        }
                    };
                    let want = es2.get(i).map(|e| if e.kind == b'0' { e.data.clone() } else { vec![] }).unwrap_or_default();
                    i += 1;
                    let path = e.path().map(|p| p.to_string_lossy().into_owned()).unwrap_or("?".into());
                    let kind = format!("{:?}", e.header().entry_type()).to_lowercase();
                    let size = e.header().size().unwrap_or(0);
                    let mut b = "unread";
                    match eat {
                        "read" | "partial" => {
                            let mut got = vec![];
                            let lim = if eat == "partial" { 10 } else { usize::MAX };
                            b = "right";
                            while got.len() < lim {
                                match e.read(&mut buf).await {
                                    Ok(0) => break,
                                    Ok(n) => got.extend_from_slice(&buf[..n]),
                                    Err(_) => {
                                        b = "error";
                                        break;
                                    }
                                }
                            }
                            if b == "right" && (!want.starts_with(&got) || (got.len() < lim && got != want)) {
                                b = "wrong";
                            }
                            if b == "error" {
                                err = Some("reading entry".into());
                            }
                        }
                        "unpack" => {
                            b = "done";
                            if let Err(x) = e.unpack_in(&d2).await {
                                b = "failed";
                                err = Some(short(x));
                            }
                        }
                        "unpack to" => {
                            b = "done";
                            if let Err(x) = e.unpack(d2.join(format!("f{i}"))).await {
                                b = "failed";
                                err = Some(short(x));
                            }
                        }
                        _ => {}
                    }
                    list.push(json!({"path": path, "kind": kind, "size": size, "body": b}));
                    if b == "error" || (eat == "stop" && i == 1) {
                        break;
                    }
                }
                json!({"outcome": if err.is_some() { "error" } else { "ok" }, "list": list, "why": err.unwrap_or_default()})
            })
        });
        let mut got = match r {
            Out::Done(v) => v,
            Out::Panic(e) => json!({"outcome": "panic", "why": e.chars().take(200).collect::<String>()}),
            Out::Hang => json!({"outcome": "hang", "why": ""}),
        };
        let o = out.to_string_lossy().into_owned();
        for (f, d) in [("list", json!([])), ("n", json!(0)), ("prefix", json!(true)), ("all", json!(false)), ("kind", json!("")), ("again", json!("")), ("why", json!(""))] {
            if got.get(f).is_none() {
                got[f] = d;
            }
        }
        for e in got["list"].as_array_mut().unwrap() {
            e["path"] = json!(e["path"].as_str().unwrap().replace(&o, "{OUT}"));
        }
        let known: Vec<_> = es.iter().enumerate().filter(|(_, e)| e.kind == b'0').map(|(i, e)| ((i + 1).to_string(), e.data.clone())).collect();
        let mut t = tree(&dst, &known);
        for e in t.iter_mut() {
            e["c"] = json!(e["c"].as_str().unwrap().replace(&o, "{OUT}"));
        }
        got["tree"] = json!(t);
        let after = tree(&base, &[]).into_iter().filter(|v| !v["p"].as_str().unwrap().contains("/dst") && !v["p"].as_str().unwrap().contains("/cache")).collect::<Vec<_>>();
        let before: Vec<_> = before.into_iter().filter(|v| !v["p"].as_str().unwrap().contains("/cache")).collect();
        got["escaped"] = json!(before != after || std::fs::read_to_string(out.join("keep")).unwrap_or_default() != "keep\n");
        a["len"] = json!(len);
        a["got"] = got;
    }
    drop(srv);
    rm_scratch(&base);
    rec
}

pub fn run_stream(sc: Value) -> Value {
    one(sc)
}
