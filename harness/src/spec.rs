//! Package specifiers.
use crate::universe::{range_str, ver_parse, ver_str, Dep};
use crate::util::{guarded, Out};
use oro_package_spec::{GitInfo, PackageSpec, VersionSpec};
use serde_json::{json, Value};
use std::time::Duration;

fn there(s: &str) -> String {
    s.replace('}', "é").replace('{', "日").replace('`', "😀")
}

fn back(s: &str) -> String {
    s.replace('é', "}").replace('日', "{").replace('😀', "`")
}

fn dep(v: &Value) -> Dep {
    let mut v = v.clone();
    v["k"] = "prod".into();
    serde_json::from_value(v).unwrap()
}

/// Versions in and around the ones named.
fn probes(d: &Dep) -> Vec<Vec<u64>> {
    let mut o = vec![];
    for b in [&d.v, &d.w] {
        let b: Vec<u64> = b.iter().map(|x| *x as u64).collect();
        let at = |x: u64, y: u64, z: u64, p: u64| vec![x, y, z, p];
        o.extend([
            b.clone(),
            at(b[0], b[1], b[2], 0),
            at(b[0], b[1], b[2], 2),
            at(b[0], b[1], b[2] + 1, 0),
            at(b[0], b[1], b[2] + 1, 1),
            at(b[0], b[1] + 1, 0, 0),
            at(b[0], b[1] + 1, 0, 1),
            at(b[0] + 1, 0, 0, 0),
            at(b[0] + 1, 0, 0, 1),
            at(b[0], 0, 0, 0),
            at(b[0], b[1], 0, 0),
        ]);
        if b[2] > 0 {
            o.push(at(b[0], b[1], b[2] - 1, 0));
        }
        if b[0] > 0 {
            o.push(at(b[0] - 1, 2, 2, 0));
        }
    }
    o.extend([vec![0, 0, 0, 0], vec![9, 0, 0, 0], vec![9, 0, 0, 1]]);
    o.sort();
    o.dedup();
    o
}

fn range(r: &node_semver::Range, d: &Dep) -> Value {
    let p: Vec<Value> = probes(d)
        .into_iter()
        .map(|v| {
            let s = ver_str(&v.iter().map(|x| *x as i64).collect::<Vec<_>>());
            json!({"in": r.satisfies(&s.parse().unwrap()), "v": v})
        })
        .collect();
    json!({"how": "range", "text": back(&r.to_string()), "probes": p, "v": []})
}

fn none() -> Value {
    json!({"how": "none", "text": "", "probes": [], "v": []})
}

fn show(s: &PackageSpec, d: &Dep, sd: &Dep) -> Value {
    match s {
        PackageSpec::Dir { path } => json!({"k": "dir", "path": back(&path.display().to_string())}),
        PackageSpec::Alias { name, spec } => json!({"k": "alias", "name": back(name), "of": show(spec, d, sd)}),
        PackageSpec::Npm { scope, name, requested } => {
            let req = match requested {
                None => none(),
                Some(VersionSpec::Tag(t)) => json!({"how": "tag", "text": back(t), "probes": [], "v": []}),
                Some(VersionSpec::Version(v)) => json!({"how": "version", "text": v.to_string(), "probes": [],
                    "v": std::panic::catch_unwind(|| ver_parse(&v.to_string())).map(|v| json!(v)).unwrap_or(json!([]))}),
                Some(VersionSpec::Range(r)) => range(r, d),
            };
            let named = match scope {
                Some(s) => name.starts_with(&format!("@{s}/")),
                None => !name.starts_with('@'),
            };
            json!({"k": "npm", "name": if named { back(name) } else { "?".into() }, "req": req})
        }
        PackageSpec::Git(g) => {
            let semver = g.semver().map(|r| range(r, sd)).unwrap_or_else(none);
            let rev: Vec<String> = g.committish().map(back).into_iter().collect();
            let mut o = match g {
                GitInfo::Hosted { owner, repo, host, requested, .. } => json!({"k": "hosted", "host": host.to_string(), "owner": back(owner), "repo": back(repo),
                    "via": requested.as_deref().map(back).unwrap_or_default(),
                    "https": g.https().map(|u| u.to_string()).unwrap_or_default(),
                    "tarball": g.tarball().map(|u| u.to_string()).unwrap_or_default(),
                    "clone": g.ssh().unwrap_or_default()}),
                GitInfo::Url { url, .. } => json!({"k": "url", "url": url.to_string()}),
                GitInfo::Ssh { ssh, .. } => json!({"k": "ssh", "ssh": back(ssh)}),
            };
            o["rev"] = json!(rev);
            o["semver"] = semver;
            o
        }
    }
}

pub fn run_spec(mut scn: Value) -> Value {
    for s in scn["specs"].as_array_mut().unwrap() {
        let d = dep(&s["d"]);
        let sd = dep(&s["sel"]["d"]);
        let mut text = s["text"].as_str().unwrap().to_string();
        let kind = |v: &Value| v["k"].as_str().unwrap().to_string();
        let k = if kind(&s["doc"]) == "alias" { kind(&s["doc"]["of"]) } else { kind(&s["doc"]) };
        if k == "npm" && d.t != "none" {
            text = format!("{text}@{}", range_str(&d));
        }
        match s["sel"]["how"].as_str().unwrap() {
            "rev" => text = format!("{text}#{}", s["sel"]["rev"].as_str().unwrap()),
            "semver" => text = format!("{text}#semver:{}", range_str(&sd)),
            _ => {}
        }
        s["written"] = json!(text);
        let t = there(&text);
        s["got"] = match guarded(Duration::from_secs(20), move || {
            let err = json!({"outcome": "error", "x": {"k": "error"}, "back": true, "requested": true, "shown": ""});
            match t.parse::<PackageSpec>() {
                Err(e) => {
                    e.location();
                    let _ = format!("{:?}", miette::Report::new(e));
                    err
                }
                Ok(p) => {
                    let shown = p.to_string();
                    let again = shown.parse::<PackageSpec>();
                    let same = again.as_ref().map(|a| *a == p).unwrap_or(false);
                    // (as it's written in a manifest)
                    let asked = match &p {
                        PackageSpec::Alias { name, .. } => format!("{name}@{}", p.requested()).parse::<PackageSpec>().map(|a| a == p).unwrap_or(false),
                        PackageSpec::Npm { name, requested: Some(_), .. } => format!("{name}@{}", p.requested()).parse::<PackageSpec>().map(|a| a == p).unwrap_or(false),
                        PackageSpec::Npm { .. } => p.requested() == "*",
                        _ => p.requested() == shown,
                    };
                    json!({"outcome": "ok", "x": show(&p, &d, &sd), "back": same, "requested": asked, "shown": back(&shown)})
                }
            }
        }) {
            Out::Done(v) => v,
            _ => json!({"outcome": "panic", "x": {"k": "error"}, "back": true, "requested": true, "shown": ""}),
        };
    }
    scn
}
