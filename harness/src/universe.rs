//! The registry content a scenario describes, in the structured form the
//! specifications use, and its rendering as the JSON / tarballs a registry
//! serves.
use crate::server::{Handler, Mode, Req, Resp};
use crate::tgz::{self, Ent};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub type V = Vec<i64>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Dep {
    /// name it is installed under
    pub n: String,
    /// package it really is
    pub p: String,
    /// kind of requirement
    pub t: String,
    #[serde(default)]
    pub v: V,
    #[serde(default)]
    pub w: V,
    /// dist-tag (t = "tag")
    #[serde(default)]
    pub g: String,
    /// prod / opt / dev / peer
    pub k: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Ver {
    pub p: String,
    pub v: V,
    #[serde(default)]
    pub deps: Vec<Dep>,
    #[serde(default)]
    pub bins: Vec<Vec<String>>,
    /// lifecycle events this package has scripts for
    #[serde(default)]
    pub scripts: Vec<String>,
    /// script bodies by event (given by the driver, not by the specification)
    #[serde(default, skip_serializing)]
    pub bodies: HashMap<String, String>,
    #[serde(default)]
    pub extra: Vec<Vec<String>>,
    #[serde(default)]
    pub depr: bool,
    /// distinguishes republished content
    #[serde(default)]
    pub salt: String,
    /// what the registry says about its bytes ("" is a sha512)
    #[serde(default)]
    pub hashes: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Tag {
    pub p: String,
    pub t: String,
    pub v: V,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Universe {
    pub vers: Vec<Ver>,
    #[serde(default)]
    pub tags: Vec<Tag>,
}

pub fn ver_str(v: &[i64]) -> String {
    let mut s = format!("{}.{}.{}", v[0], v[1], v[2]);
    if v.len() > 3 && v[3] != 0 {
        s.push_str(&format!("-beta.{}", v[3]));
    }
    s
}

pub fn ver_parse(s: &str) -> V {
    let (core, pre) = match s.split_once('-') {
        Some((c, p)) => (c, p),
        None => (s, ""),
    };
    let mut v: V = core.split('.').map(|x| x.parse().unwrap_or(-1)).collect();
    while v.len() < 3 {
        v.push(-1);
    }
    v.push(if pre.is_empty() {
        0
    } else {
        pre.strip_prefix("beta.")
            .and_then(|x| x.parse().ok())
            .unwrap_or(-1)
    });
    v
}

/// Ways to write the same (only told of for the specifiers of C24).
pub fn range_str(d: &Dep) -> String {
    let t = plain_range(d);
    if matches!(d.t.as_str(), "tag" | "none") {
        return t;
    }
    match (d.g.as_str(), d.t.as_str()) {
        ("other", "star") => ["=*", "~x", "~>X", "x", "= *", "=x"][(d.v[0] * 2 + d.v[1] + d.v[2]) as usize % 6].into(),
        ("other", "caret") => t.replace('^', "^ "),
        ("other", "tilde") => t.replace('~', "~>"),
        ("other", "gte" | "lte" | "gt" | "lt") => t.replace('=', "= ").replace('>', "> ").replace('<', "< ").replace("> =", ">=").replace("< =", "<="),
        ("other", "or") => t.replace(' ', ""),
        ("other", "x") => t.replace('x', ["X", "*", "x.x", "X.*"][(d.v[1] + d.v[2]) as usize % 4]),
        _ => t,
    }
}

fn plain_range(d: &Dep) -> String {
    match d.t.as_str() {
        "exact" => ver_str(&d.v),
        "caret" => format!("^{}", ver_str(&d.v)),
        "tilde" => format!("~{}", ver_str(&d.v)),
        "gte" => format!(">={}", ver_str(&d.v)),
        "lte" => format!("<={}", ver_str(&d.v)),
        "lt" => format!("<{}", ver_str(&d.v)),
        "gt" => format!(">{}", ver_str(&d.v)),
        "x" => format!("{}.x", d.v[0]),
        "xx" => format!("{}.{}.x", d.v[0], d.v[1]),
        "hyphen" => format!("{} - {}", ver_str(&d.v), ver_str(&d.w)),
        "or" => format!("^{} || ^{}", ver_str(&d.v), ver_str(&d.w)),
        "maj" => format!("{}", d.v[0]),
        "majmin" => format!("{}.{}", d.v[0], d.v[1]),
        "caretmaj" => format!("^{}", d.v[0]),
        "caretmin" => format!("^{}.{}", d.v[0], d.v[1]),
        "tildemaj" => format!("~{}", d.v[0]),
        "tildemin" => format!("~{}.{}", d.v[0], d.v[1]),
        "and" => format!(">={} <{}", ver_str(&d.v), ver_str(&d.w)),
        "hyphenmin" => format!("{} - {}.{}", ver_str(&d.v), d.w[0], d.w[1]),
        "star" => "*".into(),
        "tag" => d.g.clone(),
        "none" => String::new(),
        o => panic!("unknown range kind {o}"),
    }
}

/// The value written in a manifest for this dependency.
pub fn spec_str(d: &Dep) -> String {
    let r = range_str(d);
    if d.n == d.p {
        r
    } else if r.is_empty() {
        format!("npm:{}", d.p)
    } else {
        format!("npm:{}@{}", d.p, r)
    }
}

pub fn dep_maps(deps: &[Dep], m: &mut Map<String, Value>) {
    for d in deps {
        let f = match d.k.as_str() {
            "prod" => "dependencies",
            "opt" => "optionalDependencies",
            "dev" => "devDependencies",
            "peer" => "peerDependencies",
            o => panic!("unknown dep kind {o}"),
        };
        let e = m.entry(f.to_string()).or_insert_with(|| json!({}));
        e.as_object_mut()
            .unwrap()
            .insert(d.n.clone(), json!(spec_str(d)));
    }
}

pub fn manifest(name: &str, version: &str, deps: &[Dep]) -> Value {
    let mut m = Map::new();
    m.insert("name".into(), json!(name));
    m.insert("version".into(), json!(version));
    dep_maps(deps, &mut m);
    Value::Object(m)
}

pub fn base(p: &str) -> &str {
    p.rsplit('/').next().unwrap()
}

impl Ver {
    pub fn package_json(&self) -> Value {
        let mut m = manifest(&self.p, &ver_str(&self.v), &self.deps);
        let o = m.as_object_mut().unwrap();
        if self.bins.len() == 1 && self.bins[0][0] == base(&self.p) {
            o.insert("bin".into(), json!(self.bins[0][1]));
        } else if !self.bins.is_empty() {
            let mut b = Map::new();
            for x in &self.bins {
                b.insert(x[0].clone(), json!(x[1]));
            }
            o.insert("bin".into(), Value::Object(b));
        }
        if !self.scripts.is_empty() {
            let mut b = Map::new();
            for s in &self.scripts {
                let body = self
                    .bodies
                    .get(s)
                    .cloned()
                    .unwrap_or_else(|| "true".to_string());
                b.insert(s.clone(), json!(body));
            }
            o.insert("scripts".into(), Value::Object(b));
        }
        m
    }

    /// Exactly the regular files the package consists of.
    pub fn files(&self) -> Vec<(String, Vec<u8>, u32)> {
        let mut out = vec![
            (
                "lib/data.txt".to_string(),
                format!("data of {}@{}{}", self.p, ver_str(&self.v), self.salt).into_bytes(),
                0o644,
            ),
            (
                "package.json".to_string(),
                self.package_json().to_string().into_bytes(),
                0o644,
            ),
            (
                "index.js".to_string(),
                format!(
                    "module.exports='{}@{}{}'",
                    self.p,
                    ver_str(&self.v),
                    self.salt
                )
                .into_bytes(),
                0o644,
            ),
        ];
        for b in &self.bins {
            let path = b[1].trim_start_matches("./").to_string();
            if !out.iter().any(|(p, _, _)| *p == path) {
                out.push((
                    path,
                    format!("#!/bin/sh\necho bin {} {}@{}\n", b[0], self.p, ver_str(&self.v))
                        .into_bytes(),
                    0o644,
                ));
            }
        }
        for e in &self.extra {
            out.push((e[0].clone(), e[1].clone().into_bytes(), 0o644));
        }
        out
    }

    pub fn tarball(&self) -> Vec<u8> {
        let ents: Vec<Ent> = self
            .files()
            .into_iter()
            .map(|(p, d, m)| Ent::file(&format!("package/{p}"), d).mode(m))
            .collect();
        tgz::tgz(&ents)
    }
}

pub struct Blob {
    pub bytes: Arc<Vec<u8>>,
    pub sri: String,
}

pub fn tarball_path(p: &str, v: &[i64]) -> String {
    format!("/{}/-/{}-{}.tgz", p, base(p), ver_str(v))
}

/// Reads a package and version back out of a tarball URL of ours.
pub fn from_tarball_url(u: &str) -> (String, V) {
    let path = match u.find("://") {
        Some(i) => {
            let rest = &u[i + 3..];
            rest.find('/').map(|j| &rest[j + 1..]).unwrap_or("")
        }
        None => u,
    };
    if let Some((p, f)) = path.split_once("/-/") {
        let b = base(p);
        let v = f
            .strip_prefix(b)
            .and_then(|x| x.strip_prefix('-'))
            .and_then(|x| x.strip_suffix(".tgz"))
            .unwrap_or("?");
        (p.to_string(), ver_parse(v))
    } else {
        (u.to_string(), vec![-1, -1, -1, -1])
    }
}

pub struct Rendered {
    pub uni: Universe,
    blobs: HashMap<(String, String), Blob>,
}

impl Rendered {
    pub fn new(uni: &Universe) -> Self {
        let mut blobs = HashMap::new();
        for v in &uni.vers {
            let bytes = v.tarball();
            let sri = tgz::sha512(&bytes);
            blobs.insert(
                (v.p.clone(), ver_str(&v.v)),
                Blob {
                    bytes: Arc::new(bytes),
                    sri,
                },
            );
        }
        Rendered {
            uni: uni.clone(),
            blobs,
        }
    }

    pub fn blob(&self, p: &str, v: &str) -> Option<&Blob> {
        self.blobs.get(&(p.to_string(), v.to_string()))
    }

    pub fn packument(&self, p: &str, host: &str) -> Option<Value> {
        let vers: Vec<&Ver> = self.uni.vers.iter().filter(|x| x.p == p).collect();
        if vers.is_empty() {
            return None;
        }
        let mut vm = Map::new();
        for v in vers {
            let vs = ver_str(&v.v);
            let mut m = v.package_json();
            let o = m.as_object_mut().unwrap();
            if v.depr {
                o.insert("deprecated".into(), json!("do not use"));
            }
            let b = self.blob(p, &vs).unwrap();
            let mut dist = json!({"tarball": format!("http://{}{}", host, tarball_path(p, &v.v)), "integrity": b.sri});
            let other = |a| ssri::IntegrityOpts::new().algorithm(a).chain(&b.bytes[..]).result().to_string();
            match v.hashes.as_str() {
                "" => {}
                "two" => dist["integrity"] = json!(format!("{} {}", other(ssri::Algorithm::Sha1), b.sri)),
                "three" => dist["integrity"] = json!(format!("{} {} {}", b.sri, other(ssri::Algorithm::Sha256), other(ssri::Algorithm::Sha1))),
                "sha1" => dist["integrity"] = json!(other(ssri::Algorithm::Sha1)),
                "sha256" => dist["integrity"] = json!(other(ssri::Algorithm::Sha256)),
                "none" => {
                    dist.as_object_mut().unwrap().remove("integrity");
                }
                o => panic!("unknown hashes {o}"),
            }
            o.insert("dist".into(), dist);
            if !v.scripts.is_empty() {
                o.insert("hasInstallScript".into(), json!(true));
            }
            vm.insert(vs, m);
        }
        let mut tags = Map::new();
        for t in self.uni.tags.iter().filter(|t| t.p == p) {
            tags.insert(t.t.clone(), json!(ver_str(&t.v)));
        }
        Some(json!({"name": p, "dist-tags": tags, "versions": vm}))
    }

    /// Plain registry behaviour.
    pub fn respond(&self, req: &Req) -> Resp {
        let host = req.header("host").unwrap_or("").to_string();
        let path = req.path.split('?').next().unwrap();
        let path = path.replace("%2f", "/").replace("%2F", "/");
        if let Some((p, f)) = path.trim_start_matches('/').split_once("/-/") {
            let v = f
                .strip_prefix(base(p))
                .and_then(|x| x.strip_prefix('-'))
                .and_then(|x| x.strip_suffix(".tgz"))
                .unwrap_or("");
            return match self.blob(p, v) {
                Some(b) => Resp::shared(200, b.bytes.clone())
                    .header("content-type", "application/octet-stream"),
                None => Resp::new(404, "{}"),
            };
        }
        match self.packument(path.trim_start_matches('/'), &host) {
            Some(v) => Resp::json(&v),
            None => Resp::new(404, "{\"error\":\"not found\"}"),
        }
    }
}

/// Holds packument responses back and lets them go one at a time in the order
/// the scenario asks for.  Purely a way to steer the schedule: which order is
/// really taken never decides a verdict.
pub struct Gate {
    st: Mutex<GateSt>,
    cv: Condvar,
}
#[derive(Default)]
struct GateSt {
    pending: Vec<(u64, String, Instant)>,
    go: Vec<u64>,
    next: u64,
    stop: bool,
    released: Vec<String>,
}

impl Gate {
    pub fn start(order: Vec<String>, quiet: Duration) -> Arc<Gate> {
        let g = Arc::new(Gate {
            st: Mutex::new(GateSt::default()),
            cv: Condvar::new(),
        });
        let g2 = g.clone();
        std::thread::spawn(move || {
            let mut order: Vec<Option<String>> = order.into_iter().map(Some).collect();
            loop {
                let mut st = g2.st.lock().unwrap();
                while st.pending.is_empty() && !st.stop {
                    st = g2.cv.wait(st).unwrap();
                }
                if st.stop {
                    return;
                }
                // Wait until nothing new has arrived for a while.
                let newest = st.pending.iter().map(|x| x.2).max().unwrap();
                let age = newest.elapsed();
                if age < quiet {
                    drop(st);
                    std::thread::sleep(quiet - age);
                    continue;
                }
                let mut pick = None;
                for slot in order.iter_mut() {
                    if let Some(name) = slot {
                        if let Some(i) = st.pending.iter().position(|x| x.1 == *name) {
                            pick = Some(i);
                            *slot = None;
                            break;
                        }
                    }
                }
                let i = pick.unwrap_or(0);
                let (id, name, _) = st.pending.remove(i);
                st.go.push(id);
                st.released.push(name);
                g2.cv.notify_all();
            }
        });
        g
    }
    pub fn pass(&self, name: &str) {
        let mut st = self.st.lock().unwrap();
        let id = st.next;
        st.next += 1;
        st.pending.push((id, name.to_string(), Instant::now()));
        self.cv.notify_all();
        while !st.go.contains(&id) && !st.stop {
            st = self.cv.wait(st).unwrap();
        }
    }
    pub fn stop(&self) -> Vec<String> {
        let mut st = self.st.lock().unwrap();
        st.stop = true;
        self.cv.notify_all();
        st.released.clone()
    }
}

/// A fault applied to requests whose path matches.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Fault {
    pub path: String,
    /// status code, "close", "truncate", "corrupt"
    pub what: String,
    /// how many matching requests are affected (-1: all)
    pub times: i64,
}

pub struct Faults(pub Mutex<Vec<Fault>>);

impl Faults {
    pub fn apply(&self, req: &Req, resp: Resp) -> Resp {
        let mut fs = self.0.lock().unwrap();
        for f in fs.iter_mut() {
            if f.times != 0 && req.path.replace("%2f", "/") == f.path {
                if f.times > 0 {
                    f.times -= 1;
                }
                return match f.what.as_str() {
                    "close" => resp.mode(Mode::Close),
                    "truncate" => {
                        let n = resp.body.len() / 2;
                        resp.mode(Mode::Truncate(n))
                    }
                    "corrupt" => {
                        let mut b = resp.body.to_vec();
                        let i = b.len() / 2;
                        b[i] ^= 0x55;
                        Resp::shared(resp.status, Arc::new(b))
                    }
                    code => Resp::new(code.parse().unwrap(), "{}"),
                };
            }
        }
        resp
    }
}

pub fn handler(r: Arc<Rendered>, gate: Option<Arc<Gate>>, faults: Arc<Faults>) -> Handler {
    Arc::new(move |req: &Req| {
        let resp = r.respond(req);
        if !req.path.contains("/-/") {
            if let Some(g) = &gate {
                g.pass(&req.path.trim_start_matches('/').replace("%2f", "/"));
            }
        }
        faults.apply(req, resp)
    })
}
