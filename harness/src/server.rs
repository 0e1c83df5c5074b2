//! Minimal threaded HTTP/1.1 server used as a stand-in registry.  It records
//! every request and lets a closure decide, per request, what goes back
//! (including misbehaviour: closed connections, truncated bodies, stalls).
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{IpAddr, SocketAddr, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Req {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers
            .iter()
            .find(|(n, _)| n.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.as_str())
    }
    pub fn headers_all(&self, name: &str) -> Vec<String> {
        self.headers
            .iter()
            .filter(|(n, _)| n.eq_ignore_ascii_case(name))
            .map(|(_, v)| v.clone())
            .collect()
    }
}

#[derive(Clone, Debug)]
pub enum Mode {
    Normal,
    /// Close the connection without answering.
    Close,
    /// Announce the full length, send only this many bytes, close.
    Truncate(usize),
}

#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Arc<Vec<u8>>,
    pub mode: Mode,
}

impl Resp {
    pub fn new(status: u16, body: impl Into<Vec<u8>>) -> Self {
        Resp {
            status,
            headers: vec![],
            body: Arc::new(body.into()),
            mode: Mode::Normal,
        }
    }
    pub fn json(v: &serde_json::Value) -> Self {
        let mut r = Resp::new(200, v.to_string());
        r.headers
            .push(("content-type".into(), "application/json".into()));
        r
    }
    pub fn shared(status: u16, body: Arc<Vec<u8>>) -> Self {
        Resp {
            status,
            headers: vec![],
            body,
            mode: Mode::Normal,
        }
    }
    pub fn header(mut self, k: &str, v: &str) -> Self {
        self.headers.push((k.into(), v.into()));
        self
    }
    pub fn mode(mut self, m: Mode) -> Self {
        self.mode = m;
        self
    }
}

pub type Handler = Arc<dyn Fn(&Req) -> Resp + Send + Sync>;

pub struct Server {
    pub addr: SocketAddr,
    stop: Arc<AtomicBool>,
    pub log: Arc<Mutex<Vec<Req>>>,
    accept: Option<std::thread::JoinHandle<()>>,
}

impl Server {
    pub fn start(handler: Handler) -> Self {
        Self::start_on("127.0.0.1".parse().unwrap(), handler)
    }

    pub fn start_on(ip: IpAddr, handler: Handler) -> Self {
        let listener = TcpListener::bind((ip, 0)).expect("bind loopback");
        Self::from_listener(listener, handler)
    }

    pub fn from_listener(listener: TcpListener, handler: Handler) -> Self {
        let addr = listener.local_addr().unwrap();
        let stop = Arc::new(AtomicBool::new(false));
        let log = Arc::new(Mutex::new(Vec::new()));
        let (s2, l2) = (stop.clone(), log.clone());
        let accept = std::thread::spawn(move || {
            for c in listener.incoming() {
                if s2.load(Ordering::SeqCst) {
                    break;
                }
                if let Ok(c) = c {
                    let (h, l, s) = (handler.clone(), l2.clone(), s2.clone());
                    std::thread::spawn(move || {
                        let _ = serve(c, h, l, s);
                    });
                }
            }
        });
        Server {
            addr,
            stop,
            log,
            accept: Some(accept),
        }
    }

    pub fn url(&self) -> String {
        format!("http://{}/", self.addr)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(self.addr);
        if let Some(h) = self.accept.take() {
            let _ = h.join();
        }
    }
}

fn serve(
    stream: TcpStream,
    handler: Handler,
    log: Arc<Mutex<Vec<Req>>>,
    stop: Arc<AtomicBool>,
) -> std::io::Result<()> {
    stream.set_nodelay(true)?;
    stream.set_read_timeout(Some(Duration::from_secs(120)))?;
    let mut out = stream.try_clone()?;
    let mut rd = BufReader::new(stream);
    loop {
        let mut line = String::new();
        if rd.read_line(&mut line)? == 0 || stop.load(Ordering::SeqCst) {
            return Ok(());
        }
        let mut it = line.split_whitespace();
        let method = it.next().unwrap_or("").to_string();
        let path = it.next().unwrap_or("").to_string();
        let mut headers = Vec::new();
        let mut len = 0usize;
        loop {
            let mut h = String::new();
            if rd.read_line(&mut h)? == 0 {
                return Ok(());
            }
            let h = h.trim_end();
            if h.is_empty() {
                break;
            }
            if let Some((k, v)) = h.split_once(':') {
                let (k, v) = (k.trim().to_string(), v.trim().to_string());
                if k.eq_ignore_ascii_case("content-length") {
                    len = v.parse().unwrap_or(0);
                }
                headers.push((k, v));
            }
        }
        let mut body = vec![0u8; len];
        rd.read_exact(&mut body)?;
        let req = Req {
            method,
            path,
            headers,
            body,
        };
        log.lock().unwrap().push(req.clone());
        let resp = handler(&req);
        if matches!(resp.mode, Mode::Close) {
            let _ = out.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
        let mut head = format!(
            "HTTP/1.1 {} X\r\ncontent-length: {}\r\n",
            resp.status,
            resp.body.len()
        );
        for (k, v) in &resp.headers {
            head.push_str(&format!("{k}: {v}\r\n"));
        }
        head.push_str("\r\n");
        let mut buf = head.into_bytes();
        if let Mode::Truncate(n) = resp.mode {
            buf.extend_from_slice(&resp.body[..n.min(resp.body.len())]);
            out.write_all(&buf)?;
            let _ = out.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
        if req.method != "HEAD" {
            buf.extend_from_slice(&resp.body);
        }
        out.write_all(&buf)?;
        out.flush()?;
    }
}
