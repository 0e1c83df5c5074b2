//! Commands that come across data of odd shapes: registry documents, what
//! packages say of themselves, manifests, lockfiles and config files.
use crate::auth::kdl_str;
use crate::oro::{run, Project, Run};
use crate::server::{Req, Resp, Server};
use crate::tgz::{gz, sha1, sha512, tar_bytes, Ent, LongNames};
use serde_json::{json, Map, Value};
use std::collections::{BTreeSet, HashMap};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn odd(kind: &str) -> Value {
    match kind {
        "null" => Value::Null,
        "bool" => json!(true),
        "num" => json!(1.5),
        "str" => json!("odd \u{e9}\u{540d}"),
        "list" => json!(["x", 1, null, {"y": []}]),
        "dict" => json!({"x": 1, "y": {"z": [null]}}),
        "dict0" => json!({}),
        "list0" => json!([]),
        "deep" => (0..60).fold(json!([]), |v, i| if i % 2 == 0 { json!([v]) } else { json!({"d": v}) }),
        "host" => json!("http://x}/y.tgz"),
        "key" => json!({"": "", "1": 1, "\u{540d}": "^1", "../x": "*", "__proto__": {}}),
        k => panic!("unknown kind {k}"),
    }
}

fn put(doc: &mut Value, f: &str, kind: &str) {
    if kind == "right" {
        return;
    }
    let mut at = doc;
    let mut parts: Vec<&str> = f.split('.').collect();
    let last = parts.pop().unwrap();
    for p in parts {
        match at.get_mut(p) {
            Some(x) => at = x,
            None => return,
        }
    }
    if let Some(m) = at.as_object_mut() {
        if kind == "absent" {
            m.remove(last);
        } else {
            m.insert(last.into(), odd(kind));
        }
    }
}

fn full(name: &str, version: &str) -> Map<String, Value> {
    json!({"name": name, "version": version, "license": "MIT", "engines": {"node": ">=4"}, "os": ["linux"], "cpu": ["x64"], "keywords": ["k"],
        "author": {"name": "n"}, "maintainers": [{"name": "n"}], "contributors": ["n"], "repository": {"type": "git", "url": "https://h/r"},
        "bugs": "https://h/b", "homepage": "https://h", "description": "d", "main": "cli.js", "man": "x.1", "files": ["*"], "hasInstallScript": false,
        "_id": "x", "_npmUser": {"name": "n"}, "funding": "https://h/f", "bundleDependencies": [], "deprecated": false, "_hasShrinkwrap": false})
    .as_object()
    .unwrap()
    .clone()
}

/// A package's own manifest, as text
fn own_manifest(m: &Value) -> Vec<u8> {
    let k = |f: &str| m[f].as_str().unwrap();
    let mut o = Map::new();
    o.insert("version".into(), json!("1.1.0"));
    match k("name") {
        "right" => drop(o.insert("name".into(), json!("a"))),
        "absent" => {}
        x => drop(o.insert("name".into(), odd(x))),
    }
    match k("bin") {
        "absent" => {}
        "str" => drop(o.insert("bin".into(), json!("cli.js"))),
        "dict" => drop(o.insert("bin".into(), json!({"x": "cli.js"}))),
        "dictodd" => drop(o.insert("bin".into(), json!({"x": "cli.js", "y": 5, "..": "cli.js", "": "cli.js", "z": null}))),
        "list" => drop(o.insert("bin".into(), json!(["cli.js"]))),
        "listodd" => drop(o.insert("bin".into(), json!([null, "..", "cli.js", {"z": 1}, "", "/"]))),
        x => drop(o.insert("bin".into(), odd(x))),
    }
    match k("dirs") {
        "absent" => {}
        "right" => drop(o.insert("directories".into(), json!({"bin": "tools", "lib": "lib"}))),
        "binnum" => drop(o.insert("directories".into(), json!({"bin": 7}))),
        x => drop(o.insert("directories".into(), odd(x))),
    }
    let script = "echo run >> ran.txt";
    match k("scripts") {
        "absent" => {}
        "right" => drop(o.insert("scripts".into(), json!({"postinstall": script}))),
        "odd" => drop(o.insert("scripts".into(), json!({"test": 5, "postinstall": script, "build": {"x": 1}}))),
        "num" => drop(o.insert("scripts".into(), json!({"postinstall": 5}))),
        x => drop(o.insert("scripts".into(), odd(x))),
    }
    if k("other") != "absent" && k("other") != "right" {
        for f in ["license", "engines", "dependencies", "repository", "type", "exports", "os"] {
            o.insert(f.into(), odd(k("other")));
        }
    }
    let text = Value::Object(o).to_string();
    match k("wrap") {
        "plain" => text.into_bytes(),
        "bom" => format!("\u{feff}{text}").into_bytes(),
        // what's said last counts
        "twice" => format!("{{\"scripts\": 1, \"bin\": {{\"w\": \"cli.js\"}}, \"name\": \"w\", \"name\": null, \"scripts\": null, \"bin\": null, \"x\": 1, \"x\": 2, {}", &text[1..]).into_bytes(),
        "cut" => text.as_bytes()[..text.len() / 2].to_vec(),
        "array" => format!("[{text}]").into_bytes(),
        w => panic!("unknown wrap {w}"),
    }
}

fn edit(b: &mut Vec<u8>, e: &Value) {
    const TOKS: [&str; 16] = ["\"", "{", "}", "\n", "\u{feff}", "\u{e9}", "0", "-", "/", "\\", "null", ";", " ", "=", "[", "true"];
    let n = e["n"].as_u64().unwrap() as usize;
    let at = b.len() * e["at"].as_u64().unwrap() as usize / 1000;
    let end = (at + n).min(b.len());
    match e["op"].as_str().unwrap() {
        "del" => drop(b.drain(at..end)),
        "ins" => {
            let t = TOKS[e["tok"].as_u64().unwrap() as usize];
            b.splice(at..at, t.bytes());
        }
        "put" => {
            if at < b.len() {
                b[at] = (e["tok"].as_u64().unwrap() * 16 + n as u64 + at as u64) as u8;
            }
        }
        "cut" => b.truncate(at),
        "dup" => {
            let d = b[at..(at + n * 6).min(b.len())].to_vec();
            b.splice(at..at, d);
        }
        o => panic!("unknown edit {o}"),
    }
}

/// A value as JSON, and as what follows a node's name in KDL
fn value(kind: &str) -> (Value, String) {
    let both = |t: &str| (json!(t), format!(" {}", kdl_str(t)));
    match kind {
        "nl" => both("a\nb: c\r\n"),
        "nul" => both("a\u{0}b"),
        "empty" => both(""),
        "wide" => both("\u{e9}\u{540d}\u{1f600}"),
        "url" => both("http://a`{b}\":99/c"),
        "quote" => both("a\"b\\"),
        "path" => both("../x"),
        "str" => both("1.0.0"),
        "num" => (json!(5), " 5".into()),
        "big" => (json!(1e300), " 9223372036854775807".into()),
        "neg" => (json!(-1), " -1".into()),
        "zero" => (json!(0), " 0".into()),
        "frac" => (json!(1.5), " 1.5".into()),
        "bool" => (json!(true), " true".into()),
        "false" => (json!(false), " false".into()),
        "null" => (Value::Null, " null".into()),
        "two" => (json!(["x", "y"]), " \"x\" \"y\"".into()),
        "kids" => (json!({"x": 1, "y": {"z": "w"}}), " {\n x 1\n y {\n z \"w\"\n }\n}".into()),
        "none" => (json!([]), "".into()),
        "typed" => (json!({"a": "^1.0.0"}), " (u8)\"a\" b=1".into()),
        k => panic!("unknown value {k}"),
    }
}

pub fn run_shapes(scn: Value) -> Value {
    let s = |k: &str| scn[k].as_str().unwrap();
    let p = Project::new("shapes");
    let src = s("src");
    let docs: Arc<Mutex<HashMap<String, Resp>>> = Default::default();
    let d2 = docs.clone();
    let server = Server::start(Arc::new(move |q: &Req| d2.lock().unwrap().get(&q.path).cloned().unwrap_or(Resp::new(404, "{}"))));
    let url = server.url();

    // What there is, in order
    let mut world: HashMap<String, Value> = HashMap::new();
    for (n, v) in [("a", "1.0.0"), ("a", "1.1.0"), ("b", "1.0.0"), ("d", "1.0.0")] {
        let mut m = full(n, v);
        if n == "a" {
            m.insert("bin".into(), json!({"x": "cli.js"}));
            m.insert("dependencies".into(), json!({"b": "^1.0.0"}));
        }
        let own = if n == "a" && v == "1.1.0" { own_manifest(&scn["own"]) } else { Value::Object(m.clone()).to_string().into_bytes() };
        let tgz = gz(&tar_bytes(
            &[
                Ent::file("package/package.json", own),
                Ent::file("package/ver.txt", format!("{n}@{v}")),
                Ent::file("package/cli.js", "#!/usr/bin/env node\n"),
                Ent::file("package/tools/tool.js", "#!/usr/bin/env node\n"),
            ],
            LongNames::Pax,
        ));
        let at = format!("/{n}/-/{n}-{v}.tgz");
        m.insert("dist".into(), json!({"tarball": format!("{}{}", url.trim_end_matches('/'), at), "integrity": sha512(&tgz), "shasum": sha1(&tgz).parse::<ssri::Integrity>().unwrap().to_hex().1,
            "fileCount": 4, "unpackedSize": 99, "signatures": [{"keyid": "k", "sig": "s"}], "npm-signature": "x"}));
        let doc = world.entry(n.into()).or_insert_with(|| json!({"name": n, "versions": {}, "dist-tags": {}, "time": {"modified": "2020-01-01T00:00:00.000Z"}, "modified": "x"}));
        doc["versions"][v] = Value::Object(m);
        doc["dist-tags"]["latest"] = json!(v);
        docs.lock().unwrap().insert(at, Resp::new(200, tgz));
    }
    for (n, d) in &world {
        docs.lock().unwrap().insert(format!("/{n}"), Resp::json(d));
    }
    let mut root = full("proj", "1.0.0");
    for (k, v) in [("dependencies", json!({"a": "^1.0.0"})), ("optionalDependencies", json!({"d": "^1.0.0"})), ("scripts", json!({"test": "true"})), ("devDependencies", json!({})), ("peerDependencies", json!({}))] {
        root.insert(k.into(), v);
    }
    let mut root = Value::Object(root);
    let pj = p.root.join("package.json");
    let lock = p.root.join("package-lock.kdl");
    std::fs::write(&pj, serde_json::to_string_pretty(&root).unwrap()).unwrap();
    let conf = p.home.join("oro.kdl");
    let mut conf_text = b"// mine\noptions {\n    emoji false\n    default-tag \"latest\"\n    loglevel \"warn\"\n    progress false\n    concurrency 20\n}\n".to_vec();
    std::fs::write(&conf, &conf_text).unwrap();
    let vals = scn["vals"].as_array().unwrap();
    let common = |own: bool| -> Vec<String> {
        let mut c = vec!["--config", conf.to_str().unwrap()];
        for (o, v) in [("registry", url.as_str()), ("cache", p.cache.to_str().unwrap()), ("retries", "0")] {
            // (what's on the command line counts, so it isn't)
            if !(own && src == "conf" && vals.iter().any(|v| v["f"] == o)) {
                c.extend([["--registry", "--cache", "--retries"][["registry", "cache", "retries"].iter().position(|x| *x == o).unwrap()], v]);
            }
        }
        c.iter().map(|x| x.to_string()).collect()
    };
    let go = |a: &[&str], own: bool| -> crate::oro::Ran {
        let mut r: Run = p.oro(a);
        r.args.extend(common(own));
        r.limit = Some(Duration::from_secs(100));
        run(&r)
    };
    let mut outcome0 = "ok".to_string();
    if scn["was"] == true {
        outcome0 = go(&["apply"], false).class().into();
    }

    // ... and then
    for x in scn["spots"].as_array().unwrap() {
        let (w, f, k) = (x["where"].as_str().unwrap(), x["f"].as_str().unwrap(), x["kind"].as_str().unwrap());
        match w {
            "root" => put(&mut root, f, k),
            "old" | "new" => {
                let v = world.get_mut("a").unwrap().get_mut("versions").and_then(|v| v.get_mut(if w == "old" { "1.0.0" } else { "1.1.0" }));
                v.into_iter().for_each(|v| put(v, f, k));
            }
            _ if f == "latest" => put(world.get_mut("a").unwrap(), "dist-tags.latest", k),
            _ => put(world.get_mut("a").unwrap(), f, k),
        }
    }
    let edits = scn["edits"].as_array().unwrap();
    match src {
        "pack" => drop(docs.lock().unwrap().insert("/a".into(), Resp::json(&world["a"]))),
        "root" => std::fs::write(&pj, serde_json::to_string_pretty(&root).unwrap()).unwrap(),
        "kdl" => {
            let mut text = std::fs::read_to_string(&lock).unwrap_or_default();
            for v in vals {
                let (at, f, k) = (v["at"].as_str().unwrap(), v["f"].as_str().unwrap(), value(v["kind"].as_str().unwrap()).1);
                let mut doc: kdl::KdlDocument = text.parse().unwrap();
                let node = |t: String| -> kdl::KdlNode { t.parse::<kdl::KdlDocument>().unwrap().nodes()[0].clone() };
                let of = |n: &str| match f {
                    "name" => node(format!("{n}{k}\n")),
                    "nothing" => node(format!("{n}\n")),
                    _ => node(format!("{n} \"a\" {{\n{f}{k}\n}}\n")),
                };
                match at {
                    "lockfile-version" => doc.nodes_mut().iter_mut().filter(|n| n.name().value() == at).for_each(|n| *n = node(format!("{at}{k}\n"))),
                    "root" => doc.nodes_mut().push(of("root")),
                    "new" => doc.nodes_mut().push(of("pkg")),
                    _ => {
                        for n in doc.nodes_mut().iter_mut().filter(|n| n.name().value() == "pkg" && n.get(0).map_or(false, |e| e.as_string() == Some(at))) {
                            if f == "name" || f == "nothing" {
                                *n = of("pkg");
                            } else {
                                n.ensure_children().nodes_mut().retain(|c| c.name().value() != f);
                                n.ensure_children().nodes_mut().push(node(format!("{f}{k}\n")));
                            }
                        }
                    }
                }
                text = doc.to_string();
            }
            let mut b = text.into_bytes();
            edits.iter().for_each(|e| edit(&mut b, e));
            std::fs::write(&lock, b).unwrap();
        }
        "npm" => {
            let entry = |n: &str, v: &str| {
                let m = &world[n]["versions"][v];
                json!({"version": v, "resolved": m["dist"]["tarball"], "integrity": m["dist"]["integrity"], "dependencies": m["dependencies"].as_object().cloned().unwrap_or_default(), "optional": n == "d"})
            };
            let mut l = json!({"name": "proj", "version": "1.0.0", "lockfileVersion": 3, "requires": true, "packages": {
                "": {"name": "proj", "version": "1.0.0", "dependencies": {"a": "^1.0.0"}, "optionalDependencies": {"d": "^1.0.0"}},
                "node_modules/a": entry("a", "1.1.0"), "node_modules/b": entry("b", "1.0.0"), "node_modules/d": entry("d", "1.0.0")}});
            for v in vals {
                let (at, f, k) = (v["at"].as_str().unwrap(), v["f"].as_str().unwrap(), value(v["kind"].as_str().unwrap()).0);
                let e = &mut l["packages"][at];
                if e.is_null() {
                    *e = json!({});
                }
                match f {
                    "nothing" => *e = json!({}),
                    "all" => *e = k,
                    _ if e.is_object() => e[f] = k,
                    _ => {}
                }
            }
            let mut b = serde_json::to_string_pretty(&l).unwrap().into_bytes();
            edits.iter().for_each(|e| edit(&mut b, e));
            std::fs::write(p.root.join("package-lock.json"), b).unwrap();
        }
        "conf" => {
            let mut more = vec![];
            for v in vals {
                let (f, k) = (v["f"].as_str().unwrap(), value(v["kind"].as_str().unwrap()).1);
                let prop = if k.is_empty() || k.contains([',', '(', '{']) || k.matches('"').count() == 4 { " 5".to_string() } else { k.clone() };
                more.push(match f.split_once('.') {
                    Some(("auth", "")) => format!("auth {{\n {}{k}\n}}\n", kdl_str(&url)),
                    Some(("auth", w)) => format!("auth {{\n {} {w}={}\n}}\n", kdl_str(&url), prop.trim_start()),
                    Some((o, w)) => format!("{o} {{\n {}{k}\n}}\n", kdl_str(w)),
                    None => format!("{}{k}\n", kdl_str(f)),
                });
            }
            let at = conf_text.len() - 2;
            conf_text.splice(at..at, more.concat().into_bytes());
            edits.iter().for_each(|e| edit(&mut conf_text, e));
            std::fs::write(&conf, &conf_text).unwrap();
        }
        "http" => {
            let text = world["a"].to_string();
            let body: Vec<u8> = match s("body") {
                "cut" => text.as_bytes()[..text.len() * 2 / 3].to_vec(),
                "empty" => vec![],
                "html" => format!("<html><body>{}</body></html>", "\u{540d}".repeat(300)).into_bytes(),
                "latin" => [b"{\"name\": \"".to_vec(), vec![0xe9, 0xff, 0xc3, 0x28], b"\", \"versions\": {\"1.0.0\": 5}}".to_vec()].concat(),
                "nested" => "[{\"a\":".repeat(50000).into_bytes(),
                "bom" => format!("\u{feff}{text}").into_bytes(),
                "null" => b"null".to_vec(),
                "num" => b"1e999".to_vec(),
                "list" => format!("[{text}]").into_bytes(),
                "nul" => text.replace("1.1.0", "1.\u{0}.0").into_bytes(),
                "wide" => format!("\r\n\t {} \n\n", serde_json::to_string_pretty(&world["a"]).unwrap().replace("\"dist-tags\"", "\"dist\\u002dtags\"").replace('\n', "\r\n\t\t")).into_bytes(),
                "twice" => format!("{{\"dist-tags\": {{}}, {}", &text[1..]).into_bytes(),
                _ => text.into_bytes(),
            };
            let mut d = docs.lock().unwrap();
            d.insert("/a".into(), Resp::new(200, body));
            match s("body") {
                "tarball" => drop(d.insert("/a/-/a-1.1.0.tgz".into(), Resp::new(200, "\u{1f}\u{8b} not a tarball"))),
                "notarball" => drop(d.remove("/a/-/a-1.1.0.tgz")),
                _ => {}
            }
        }
        _ => {}
    }
    let files = || (std::fs::read(&pj).ok(), std::fs::read(&lock).ok());
    let before = files();
    let args: &[&str] = match s("cmd") {
        "apply" => &["apply"],
        "hoisted" => &["apply", "--hoisted"],
        "lockonly" => &["apply", "--lockfile-only"],
        "reapply" => &["reapply"],
        "add" => &["add", "b@^1.0.0"],
        "remove" => &["remove", "d"],
        "view" => &["view", "a"],
        "viewjson" => &["view", "a", "--json"],
        c => panic!("unknown command {c}"),
    };
    let r = go(args, true);
    if std::env::var("VP_SHOW").is_ok() {
        eprintln!("{args:?} {}\n{}\n{}\n==", r.class(), r.out, r.err);
    }
    let nm = p.root.join("node_modules");
    let mut there = BTreeSet::new();
    let mut ran = false;
    for e in walkdir::WalkDir::new(&nm).into_iter().flatten() {
        if e.file_name() == "ver.txt" {
            there.insert(std::fs::read_to_string(e.path()).unwrap_or_default());
        }
        ran |= e.file_name() == "ran.txt";
    }
    let bins = names(&nm.join(".bin"));
    let mut out = scn.clone();
    out["outcome0"] = json!(outcome0);
    out["did"] = json!({"outcome": r.class(), "same": before == files(), "there": there, "bins": bins, "ran": ran});
    out
}

fn names(d: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
