//! Writes zip archives (arbitrary member names, stored or deflated) and reads them through a reader that
//! misbehaves as a plan says.
use serde::{Deserialize, Serialize};
use std::io::{self, Read, Seek, SeekFrom};

#[derive(Debug, Clone, Default, PartialEq, Serialize, Deserialize)]
pub struct ZipSpec {
    pub deflate: bool,
    pub top: String,
    /// names of additional members
    #[serde(default)] pub evil: Vec<String>,
    #[serde(default)] pub dirs: bool,
    /// keep this many thousandths of the archive
    #[serde(default)] pub trunc: Option<u32>,
    /// flip a byte at this many thousandths
    #[serde(default)] pub flip: Option<u32>,
    /// leave out the k-th model file
    #[serde(default)] pub drop: Option<usize>,
    #[serde(default)] pub reader: ReaderPlan,
    /// directory of the model (empty: model)
    #[serde(default)] pub from: String,
}
#[derive(Debug, Clone, Default, PartialEq, Serialize, Deserialize)]
pub struct ReaderPlan {
    /// at most this many bytes per read (0: no limit)
    #[serde(default)] pub chunk: usize,
    /// every n-th read is interrupted (0: never)
    #[serde(default)] pub intr: u64,
    /// the n-th read fails
    #[serde(default)] pub err_at: Option<u64>,
    /// ... and all later ones too
    #[serde(default)] pub sticky: bool,
}

pub fn build(spec: &ZipSpec, files: &[(String, Vec<u8>)]) -> Vec<u8> {
    let mut members: Vec<(String, Vec<u8>)> = vec![];
    let mut dirs = std::collections::BTreeSet::new();
    for (i, (rel, data)) in files.iter().enumerate() {
        if Some(i) == spec.drop { continue; }
        let name = format!("{}/{}", spec.top, rel);
        if spec.dirs { let mut p = String::new(); for c in name.split('/').collect::<Vec<_>>().split_last().unwrap().1 { p.push_str(c); p.push('/'); if dirs.insert(p.clone()) { members.push((p.clone(), vec![])); } } }
        members.push((name, data.clone()));
    }
    for (i, e) in spec.evil.iter().enumerate() { let at = (1 + i * 7).min(members.len()); members.insert(at, (e.clone(), if e.ends_with('/') { vec![] } else { format!("evil {}", e).into_bytes() })); }
    let mut out = vec![];
    let mut cd = vec![];
    let n = members.len() as u16;
    for (name, data) in members {
        let off = out.len() as u32;
        let mut h = crc32fast::Hasher::new();
        h.update(&data);
        let crc = h.finalize();
        let deflate = spec.deflate && !data.is_empty();
        let body = if deflate { miniz_oxide::deflate::compress_to_vec(&data, 6) } else { data.clone() };
        let mut common = vec![20, 0, 0, 8];
        common.extend_from_slice(&(if deflate { 8u16 } else { 0 }).to_le_bytes());
        common.extend_from_slice(&[0, 0, 0x21, 0x28]);
        for v in [crc, body.len() as u32, data.len() as u32] { common.extend_from_slice(&v.to_le_bytes()); }
        common.extend_from_slice(&(name.len() as u16).to_le_bytes());
        common.extend_from_slice(&[0, 0]);
        out.extend_from_slice(b"PK\x03\x04");
        out.extend_from_slice(&common);
        out.extend_from_slice(name.as_bytes());
        out.extend_from_slice(&body);
        cd.extend_from_slice(b"PK\x01\x02\x14\x03");
        cd.extend_from_slice(&common);
        cd.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
        cd.extend_from_slice(&(0o100644u32 << 16).to_le_bytes());
        cd.extend_from_slice(&off.to_le_bytes());
        cd.extend_from_slice(name.as_bytes());
    }
    let off = out.len() as u32;
    let size = cd.len() as u32;
    out.extend_from_slice(&cd);
    out.extend_from_slice(b"PK\x05\x06\0\0\0\0");
    out.extend_from_slice(&n.to_le_bytes());
    out.extend_from_slice(&n.to_le_bytes());
    out.extend_from_slice(&size.to_le_bytes());
    out.extend_from_slice(&off.to_le_bytes());
    out.extend_from_slice(&[0, 0]);
    if let Some(f) = spec.flip { if !out.is_empty() { let i = (out.len() as u64 * u64::from(f.min(999)) / 1000) as usize; out[i] ^= 0x15; } }
    if let Some(t) = spec.trunc { let k = (out.len() as u64 * u64::from(t.min(1000)) / 1000) as usize; out.truncate(k); }
    out
}

pub struct SimReader { data: Vec<u8>, pos: u64, plan: ReaderPlan, n: u64, pub failed: std::rc::Rc<std::cell::Cell<u64>>, pub reads: std::rc::Rc<std::cell::Cell<u64>> }
impl SimReader {
    pub fn new(data: Vec<u8>, plan: ReaderPlan) -> SimReader { SimReader { data, pos: 0, plan, n: 0, failed: Default::default(), reads: Default::default() } }
}
impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        crate::rt::yield_now(0x50);
        let n = self.n;
        self.n += 1;
        self.reads.set(self.n);
        if let Some(e) = self.plan.err_at { if n == e || (self.plan.sticky && n > e) { self.failed.set(self.failed.get() + 1); return Err(io::Error::new(io::ErrorKind::Other, "simulated reader failure")); } }
        if self.plan.intr > 0 && n % self.plan.intr == self.plan.intr - 1 { return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let from = (self.pos as usize).min(self.data.len());
        let mut k = buf.len().min(self.data.len() - from);
        if self.plan.chunk > 0 { k = k.min(self.plan.chunk); }
        buf[..k].copy_from_slice(&self.data[from..from + k]);
        self.pos += k as u64;
        Ok(k)
    }
}
impl Seek for SimReader {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let v = match p { SeekFrom::Start(v) => v as i64, SeekFrom::End(v) => self.data.len() as i64 + v, SeekFrom::Current(v) => self.pos as i64 + v };
        if v < 0 { return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek before start")); }
        self.pos = v as u64;
        Ok(self.pos)
    }
}
