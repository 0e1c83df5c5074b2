//! Deterministic construction of package tarballs, including hostile ones.
use flate2::{write::GzEncoder, Compression, GzBuilder};
use std::io::Write;

#[derive(Clone, Debug)]
pub struct Ent {
    pub path: String,
    pub data: Vec<u8>,
    pub mode: u32,
    /// '0' regular, '5' dir, '2' symlink, '1' hard link
    pub kind: u8,
    pub link: String,
}

impl Ent {
    pub fn file(path: &str, data: impl Into<Vec<u8>>) -> Self {
        Ent {
            path: path.into(),
            data: data.into(),
            mode: 0o644,
            kind: b'0',
            link: String::new(),
        }
    }
    pub fn mode(mut self, m: u32) -> Self {
        self.mode = m;
        self
    }
}

fn octal(buf: &mut [u8], v: u64) {
    let s = format!("{:0width$o}", v, width = buf.len() - 1);
    buf[..s.len()].copy_from_slice(s.as_bytes());
}

fn header(path: &[u8], prefix: &[u8], size: u64, mode: u32, kind: u8, link: &[u8]) -> [u8; 512] {
    let mut h = [0u8; 512];
    h[..path.len().min(100)].copy_from_slice(&path[..path.len().min(100)]);
    octal(&mut h[100..108], mode as u64);
    octal(&mut h[108..116], 0);
    octal(&mut h[116..124], 0);
    octal(&mut h[124..136], size);
    octal(&mut h[136..148], 499162500);
    h[156] = kind;
    h[157..157 + link.len().min(100)].copy_from_slice(&link[..link.len().min(100)]);
    h[257..263].copy_from_slice(b"ustar\0");
    h[263..265].copy_from_slice(b"00");
    h[345..345 + prefix.len().min(155)].copy_from_slice(&prefix[..prefix.len().min(155)]);
    h[148..156].copy_from_slice(b"        ");
    let sum: u32 = h.iter().map(|b| *b as u32).sum();
    let s = format!("{sum:06o}\0 ");
    h[148..156].copy_from_slice(s.as_bytes());
    h
}

fn pad(out: &mut Vec<u8>) {
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

/// How names longer than 100 bytes are written.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum LongNames {
    Prefix,
    Pax,
    Gnu,
}

pub fn tar_bytes(ents: &[Ent], long: LongNames) -> Vec<u8> {
    let mut out = Vec::new();
    for e in ents {
        let p = e.path.as_bytes();
        let mut name: Vec<u8> = p.to_vec();
        let mut prefix: Vec<u8> = vec![];
        if p.len() > 100 {
            match long {
                LongNames::Prefix => {
                    // split at a slash so that the tail fits in 100 bytes
                    if let Some(i) = (0..p.len())
                        .find(|i| p[*i] == b'/' && p.len() - i - 1 <= 100 && *i <= 155)
                    {
                        prefix = p[..i].to_vec();
                        name = p[i + 1..].to_vec();
                    }
                }
                LongNames::Pax => {
                    let mut rec = format!(" path={}\n", e.path);
                    let mut n = rec.len();
                    loop {
                        let t = n.to_string().len() + rec.len();
                        if t == n {
                            break;
                        }
                        n = t;
                    }
                    rec = format!("{n}{rec}");
                    out.extend_from_slice(&header(
                        b"PaxHeader/x",
                        b"",
                        rec.len() as u64,
                        0o644,
                        b'x',
                        b"",
                    ));
                    out.extend_from_slice(rec.as_bytes());
                    pad(&mut out);
                    name = p[..100].to_vec();
                }
                LongNames::Gnu => {
                    let mut nm = p.to_vec();
                    nm.push(0);
                    out.extend_from_slice(&header(
                        b"././@LongLink",
                        b"",
                        nm.len() as u64,
                        0o644,
                        b'L',
                        b"",
                    ));
                    out.extend_from_slice(&nm);
                    pad(&mut out);
                    name = p[..100].to_vec();
                }
            }
        }
        let size = if e.kind == b'0' { e.data.len() as u64 } else { 0 };
        out.extend_from_slice(&header(
            &name,
            &prefix,
            size,
            e.mode,
            e.kind,
            e.link.as_bytes(),
        ));
        if e.kind == b'0' {
            out.extend_from_slice(&e.data);
            pad(&mut out);
        }
    }
    out.extend_from_slice(&[0u8; 1024]);
    out
}

pub fn gz(data: &[u8]) -> Vec<u8> {
    let mut enc: GzEncoder<Vec<u8>> = GzBuilder::new()
        .mtime(0)
        .write(Vec::new(), Compression::fast());
    enc.write_all(data).unwrap();
    enc.finish().unwrap()
}

pub fn tgz(ents: &[Ent]) -> Vec<u8> {
    gz(&tar_bytes(ents, LongNames::Prefix))
}

pub fn sha512(data: &[u8]) -> String {
    ssri::IntegrityOpts::new()
        .algorithm(ssri::Algorithm::Sha512)
        .chain(data)
        .result()
        .to_string()
}

pub fn sha1(data: &[u8]) -> String {
    ssri::IntegrityOpts::new()
        .algorithm(ssri::Algorithm::Sha1)
        .chain(data)
        .result()
        .to_string()
}
