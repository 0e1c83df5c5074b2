//! Lockfiles: written, read back, used again after the registry moved on.
use crate::resolve::*;
use crate::server::{Req, Server};
use crate::universe::*;
use crate::util::*;
use node_maintainer::{Lockfile, NodeMaintainer};
use oro_common::CorgiManifest;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

/// Everything a lockfile says about a tree.
pub fn lock_json(lock: &Lockfile) -> Value {
    let mut t: Vec<Value> = vec![];
    let deps = |n: &node_maintainer::LockfileNode| {
        let mut o: Vec<Vec<String>> = vec![];
        for (k, m) in [
            ("prod", &n.dependencies),
            ("dev", &n.dev_dependencies),
            ("opt", &n.optional_dependencies),
            ("peer", &n.peer_dependencies),
        ] {
            for (a, b) in m {
                o.push(vec![k.to_string(), a.clone(), b.clone()]);
            }
        }
        o.sort();
        o
    };
    for (_, n) in lock.packages() {
        t.push(json!({
            "path": n.path.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
            "resolved": n.resolved.clone().unwrap_or_default(),
            "ver": n.version.as_ref().map(|v| v.to_string()).unwrap_or_default(),
            "sri": n.integrity.as_ref().map(|v| v.to_string()).unwrap_or_default(),
            "deps": deps(n),
        }));
    }
    t.sort_by_key(|x| x["path"].to_string());
    json!({"version": lock.version(), "root": deps(lock.root()), "packages": t})
}

/// A registry whose content and answer order can be changed while it runs.
pub struct Registry {
    pub srv: Server,
    content: Arc<RwLock<Arc<Rendered>>>,
    gate: Arc<RwLock<Option<Arc<Gate>>>>,
    pub faults: Arc<Faults>,
    budget: Arc<std::sync::atomic::AtomicUsize>,
}

impl Registry {
    pub fn new(uni: &Universe) -> Self {
        let content = Arc::new(RwLock::new(Arc::new(Rendered::new(uni))));
        let gate: Arc<RwLock<Option<Arc<Gate>>>> = Arc::new(RwLock::new(None));
        let faults = Arc::new(Faults(Mutex::new(vec![])));
        let budget = Arc::new(std::sync::atomic::AtomicUsize::new(runaway() * 2));
        let (c, g, f, b) = (content.clone(), gate.clone(), faults.clone(), budget.clone());
        let srv = Server::start(Arc::new(move |req: &Req| {
            use std::sync::atomic::Ordering::SeqCst;
            if b.fetch_update(SeqCst, SeqCst, |x| x.checked_sub(1)).is_err() {
                if let Some(g) = g.read().unwrap().clone() {
                    g.stop();
                }
                return crate::server::Resp::new(404, "{}");
            }
            if req.path.starts_with("/-/ping") {
                return crate::server::Resp::new(200, "{}");
            }
            let r = c.read().unwrap().clone();
            let resp = r.respond(req);
            let gt = g.read().unwrap().clone();
            if !req.path.contains("/-/") {
                if let Some(g) = gt {
                    g.pass(&req.path.trim_start_matches('/').replace("%2f", "/"));
                }
            }
            f.apply(req, resp)
        }));
        Registry { srv, content, gate, faults, budget }
    }
    pub fn exhausted(&self) -> bool {
        self.budget.load(std::sync::atomic::Ordering::SeqCst) == 0
    }
    pub fn publish(&self, uni: &Universe) {
        *self.content.write().unwrap() = Arc::new(Rendered::new(uni));
    }
    pub fn order(&self, order: Vec<String>) {
        self.free();
        *self.gate.write().unwrap() = Some(Gate::start(order, Duration::from_micros(1500)));
    }
    pub fn free(&self) {
        if let Some(g) = self.gate.write().unwrap().take() {
            g.stop();
        }
    }
    pub fn take_log(&self) -> Vec<Req> {
        std::mem::take(&mut *self.srv.log.lock().unwrap())
    }
}

impl Drop for Registry {
    fn drop(&mut self) {
        self.free();
    }
}

pub enum LockSrc {
    None,
    Kdl(String),
    Npm(String),
}

pub fn resolve_with(reg: &Registry, root: Value, conc: usize, locked: bool, lock: LockSrc) -> Res {
    let url = reg.srv.url();
    let r = guarded(Duration::from_secs(120), move || {
        let mani: CorgiManifest = serde_json::from_value(root).unwrap();
        let mut b = builder(&url)
            .concurrency(conc)
            .locked(locked)
            .root("/nonexistent-vp");
        b = match lock {
            LockSrc::None => b,
            LockSrc::Kdl(k) => b.kdl_lock(k)?,
            LockSrc::Npm(k) => b.npm_lock(k)?,
        };
        async_std::task::block_on(b.resolve_manifest(mani))
    });
    if reg.exhausted() {
        return Res::Hang;
    }
    match r {
        Out::Done(Ok(nm)) => Res::Ok(Arc::new(nm)),
        Out::Done(Err(e)) => Res::Err(err_class(&e)),
        Out::Panic(m) => Res::Panic(m),
        Out::Hang => Res::Hang,
    }
}

pub fn oc(r: &Res) -> Value {
    match r {
        Res::Ok(_) => json!(["ok", ""]),
        Res::Err(e) => json!(["error", e]),
        Res::Panic(e) => json!(["panic", e]),
        Res::Hang => json!(["hang", ""]),
    }
}

fn kdl_of(nm: &NodeMaintainer) -> Option<String> {
    nm.to_kdl().ok().map(|k| k.to_string())
}

/// first resolution -> lockfile -> registry changes -> resolution with it
pub fn run_relock(sc: Value) -> Value {
    let uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    let uni2: Universe = serde_json::from_value(sc["uni2"].clone()).unwrap();
    let root: Vec<Dep> = serde_json::from_value(sc["root"].clone()).unwrap();
    let root2: Vec<Dep> = serde_json::from_value(sc["root2"].clone()).unwrap();
    let order: Vec<String> = serde_json::from_value(sc["order"].clone()).unwrap();
    let order2: Vec<String> = serde_json::from_value(sc["order2"].clone()).unwrap();
    let conc = sc["conc"].as_u64().unwrap() as usize;
    let conc2 = sc["conc2"].as_u64().unwrap() as usize;
    let reg = Registry::new(&uni);
    let mut out = sc.clone();
    let m = out.as_object_mut().unwrap();
    reg.order(order);
    let first = resolve_with(&reg, manifest("root", "1.0.0", &root), conc, false, LockSrc::None);
    m.insert("outcome".into(), oc(&first));
    let empty = json!({"version": 0, "root": [], "packages": []});
    for k in ["lock1", "lock1r", "lock2"] {
        m.insert(k.into(), empty.clone());
    }
    for k in ["tree1", "tree2", "tree3"] {
        m.insert(k.into(), json!([]));
    }
    for k in ["outcome2", "outcome3", "outcome4"] {
        m.insert(k.into(), json!(["none", ""]));
    }
    for k in ["rewrite", "samebytes", "lockstays"] {
        m.insert(k.into(), json!(true));
    }
    let nm = match first {
        Res::Ok(nm) => nm,
        _ => return out,
    };
    let l1 = nm.to_lockfile().unwrap();
    let k1 = kdl_of(&nm).unwrap();
    m.insert("lock1".into(), lock_json(&l1));
    m.insert("tree1".into(), tree_json(&l1));
    match Lockfile::from_kdl(k1.clone()) {
        Ok(l) => {
            m.insert("lock1r".into(), lock_json(&l));
            m.insert("rewrite".into(), json!(l.to_kdl().to_string() == k1));
        }
        Err(e) => {
            m.insert("rewrite".into(), json!(false));
            m.insert("outcome".into(), json!(["unreadable", format!("{e:?}").chars().take(80).collect::<String>()]));
            return out;
        }
    }
    reg.publish(&uni2);
    reg.order(order2.clone());
    let again = resolve_with(&reg, manifest("root", "1.0.0", &root2), conc2, false, LockSrc::Kdl(k1.clone()));
    m.insert("outcome2".into(), oc(&again));
    let mut k2 = None;
    if let Res::Ok(nm2) = &again {
        let l2 = nm2.to_lockfile().unwrap();
        m.insert("lock2".into(), lock_json(&l2));
        m.insert("tree2".into(), tree_json(&l2));
        k2 = kdl_of(nm2);
        m.insert("samebytes".into(), json!(k2.as_ref() == Some(&k1)));
    }
    // locked mode with the old lockfile, and with the lockfile just made
    reg.order(order2.iter().rev().cloned().collect());
    let r3 = resolve_with(&reg, manifest("root", "1.0.0", &root2), conc2, true, LockSrc::Kdl(k1));
    m.insert("outcome3".into(), oc(&r3));
    if let Res::Ok(nm3) = &r3 {
        m.insert("tree3".into(), tree_json(&nm3.to_lockfile().unwrap()));
    }
    if let Some(k2) = k2 {
        let r4 = resolve_with(&reg, manifest("root", "1.0.0", &root2), conc2, true, LockSrc::Kdl(k2.clone()));
        m.insert("outcome4".into(), oc(&r4));
        // is the lockfile just made what resolving with it produces?
        let r5 = resolve_with(&reg, manifest("root", "1.0.0", &root2), conc, false, LockSrc::Kdl(k2.clone()));
        if let Res::Ok(nm5) = &r5 {
            m.insert("lockstays".into(), json!(kdl_of(nm5) == Some(k2)));
        }
    }
    out
}

/// resolution of a project that only has an npm lockfile
pub fn run_npmlock(sc: Value) -> Value {
    let uni: Universe = serde_json::from_value(sc["uni"].clone()).unwrap();
    let root: Vec<Dep> = serde_json::from_value(sc["root"].clone()).unwrap();
    let root2: Vec<Dep> = serde_json::from_value(sc["root2"].clone()).unwrap();
    let order: Vec<String> = serde_json::from_value(sc["order"].clone()).unwrap();
    let conc = sc["conc"].as_u64().unwrap() as usize;
    let noresolved = sc["noresolved"].as_bool().unwrap();
    let noint = sc["noint"].as_bool().unwrap();
    let reg = Registry::new(&uni);
    let rend = Rendered::new(&uni);
    let host = reg.srv.url();
    let host = host.trim_start_matches("http://").trim_end_matches('/').to_string();
    let mut pk = serde_json::Map::new();
    let mut r = manifest("root", "1.0.0", &root);
    r.as_object_mut().unwrap().insert("license".into(), json!("MIT"));
    pk.insert("".into(), r);
    let mut want = std::collections::HashMap::new();
    for e in sc["lock"].as_array().unwrap() {
        let path: Vec<String> = serde_json::from_value(e["path"].clone()).unwrap();
        let p = e["p"].as_str().unwrap();
        let v: V = serde_json::from_value(e["v"].clone()).unwrap();
        let vs = ver_str(&v);
        let ver = uni.vers.iter().find(|x| x.p == p && x.v == v).unwrap();
        let mut m = serde_json::Map::new();
        m.insert("version".into(), json!(vs));
        if path.last().unwrap() != p {
            m.insert("name".into(), json!(p));
        }
        if !noresolved {
            m.insert("resolved".into(), json!(format!("http://{}{}", host, tarball_path(p, &v))));
        }
        let sri = rend.blob(p, &vs).unwrap().sri.clone();
        if !noint {
            m.insert("integrity".into(), json!(sri));
        }
        want.insert(path.clone(), sri);
        dep_maps(&ver.deps, &mut m);
        m.insert("license".into(), json!("MIT"));
        m.insert("engines".into(), json!({"node": ">=1"}));
        pk.insert(format!("node_modules/{}", path.join("/node_modules/")), Value::Object(m));
    }
    let npm = json!({"name": "root", "version": "1.0.0", "lockfileVersion": 3, "requires": true, "packages": pk});
    let dir = scratch("npmlock");
    std::fs::write(dir.join(sc["file"].as_str().unwrap()), serde_json::to_string_pretty(&npm).unwrap()).unwrap();
    reg.order(order);
    let url = reg.srv.url();
    let d2 = dir.clone();
    let res = guarded(Duration::from_secs(120), move || {
        let mani: CorgiManifest = serde_json::from_value(manifest("root", "1.0.0", &root2)).unwrap();
        let b = builder(&url).concurrency(conc).root(d2);
        async_std::task::block_on(b.resolve_manifest(mani))
    });
    let r = match res {
        _ if reg.exhausted() => Res::Hang,
        Out::Done(Ok(nm)) => Res::Ok(Arc::new(nm)),
        Out::Done(Err(e)) => Res::Err(err_class(&e)),
        Out::Panic(m) => Res::Panic(m),
        Out::Hang => Res::Hang,
    };
    rm_scratch(&dir);
    let mut out = sc.clone();
    let m = out.as_object_mut().unwrap();
    m.insert("outcome".into(), oc(&r));
    let mut tree = json!([]);
    if let Res::Ok(nm) = &r {
        tree = tree_json(&nm.to_lockfile().unwrap());
        for t in tree.as_array_mut().unwrap() {
            let path: Vec<String> = serde_json::from_value(t["path"].clone()).unwrap();
            let w = want.get(&path).cloned().unwrap_or_default();
            t.as_object_mut().unwrap().insert("wantsri".into(), json!(w));
        }
    }
    m.insert("tree".into(), tree);
    out
}
