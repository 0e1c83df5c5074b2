use serde_json::Value;
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn read_ndjson(path: &str) -> Vec<Value> {
    let f = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    std::io::BufReader::new(f)
        .lines()
        .map(|l| l.unwrap())
        .filter(|l| !l.trim().is_empty())
        .map(|l| serde_json::from_str(&l).unwrap_or_else(|e| panic!("{e}: {l}")))
        .collect()
}

pub fn write_ndjson(path: &str, vals: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
    for v in vals {
        writeln!(f, "{v}").unwrap();
    }
}

/// Runs `f` over all items on `n` threads, keeping order.
pub fn par_map<T: Send + 'static, R: Send + 'static>(
    items: Vec<T>,
    n: usize,
    f: impl Fn(T) -> R + Send + Sync + 'static,
) -> Vec<R> {
    let total = items.len();
    let q = Arc::new(Mutex::new(items.into_iter().enumerate().collect::<Vec<_>>()));
    q.lock().unwrap().reverse();
    let out: Arc<Mutex<Vec<Option<R>>>> = Arc::new(Mutex::new((0..total).map(|_| None).collect()));
    let f = Arc::new(f);
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let (q, out, f) = (q.clone(), out.clone(), f.clone());
            std::thread::spawn(move || loop {
                let it = q.lock().unwrap().pop();
                match it {
                    None => break,
                    Some((i, t)) => {
                        let r = f(t);
                        out.lock().unwrap()[i] = Some(r);
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().expect("worker");
    }
    let mut o = out.lock().unwrap();
    o.drain(..).map(|x| x.unwrap()).collect()
}

pub enum Out<T> {
    Done(T),
    Panic(String),
    Hang,
}

/// Runs the code under test on its own thread: a panic or a hang is a result.
pub fn guarded<T: Send + 'static>(
    limit: Duration,
    f: impl FnOnce() -> T + Send + 'static,
) -> Out<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    let h = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let _ = tx.send(r);
        })
        .unwrap();
    match rx.recv_timeout(limit) {
        Ok(Ok(v)) => {
            let _ = h.join();
            Out::Done(v)
        }
        Ok(Err(e)) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".into());
            Out::Panic(m)
        }
        Err(_) => Out::Hang,
    }
}

pub fn env_usize(k: &str, d: usize) -> usize {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

/// A fresh scratch directory of our own, removed by rm_scratch.
pub fn scratch(tag: &str) -> std::path::PathBuf {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = scratch_base().join(format!("{}-{}-{}", tag, std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn scratch_base() -> std::path::PathBuf {
    let b = std::env::var("VP_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join("vp-scratch"));
    std::fs::create_dir_all(&b).unwrap();
    b.canonicalize().unwrap()
}

pub fn rm_scratch(d: &std::path::Path) {
    assert!(d.starts_with(scratch_base()) && d != scratch_base());
    let _ = std::fs::remove_dir_all(d);
}
