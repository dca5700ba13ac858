//! What the stand-ins for the missing dependencies ask of their host, and small helpers.
#![allow(dead_code)]
use std::sync::{Condvar, Mutex};
use std::time::Duration;

pub type Hook = fn(u32, &str) -> bool;
/// Called at each call of a collaborator (kind 1 grammar parser, 2 gazetteer parser, 3 tagger) and at the points
/// between its steps (kind 0); returning true makes the call fail.
pub static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
pub static NOW: Mutex<i64> = Mutex::new(1_700_000_000);
pub static CAP: Mutex<Option<usize>> = Mutex::new(None);

#[no_mangle]
pub extern "C" fn sim_stub_point(kind: u32, tag: *const u8, len: usize) -> u32 {
    let h = *HOOK.lock().unwrap();
    match h { Some(f) => { let t = unsafe { std::str::from_utf8(std::slice::from_raw_parts(tag, len)).unwrap() }; f(kind, t) as u32 } None => 0 }
}
#[no_mangle]
pub extern "C" fn sim_now_secs() -> i64 { *NOW.lock().unwrap() }
#[no_mangle]
pub extern "C" fn sim_cache_capacity(n: usize) -> usize { CAP.lock().unwrap().unwrap_or(n) }
/// The tagger is not told what to say: it decides by its weights.
#[no_mangle]
pub extern "C" fn sim_tagger(_n: usize, _labels: *const u8, _len: usize, _out: *mut u32) -> u32 { 0 }

/// A flag other threads can wait for (with a limit, so that a schedule that cannot happen is left after a while).
pub struct Gate(Mutex<u32>, Condvar);
impl Gate {
    pub const fn new() -> Gate { Gate(Mutex::new(0), Condvar::new()) }
    pub fn open(&self) { *self.0.lock().unwrap() += 1; self.1.notify_all(); }
    pub fn opened(&self) -> u32 { *self.0.lock().unwrap() }
    pub fn wait(&self, n: u32, ms: u64) -> bool {
        let g = self.0.lock().unwrap();
        let (g, _) = self.1.wait_timeout_while(g, Duration::from_millis(ms), |x| *x < n).unwrap();
        *g >= n
    }
}
pub fn js<T: serde::Serialize>(v: &T) -> String { serde_json::to_string(v).unwrap() }
pub fn show<T: serde::Serialize>(v: &Result<T, failure::Error>) -> String {
    match v { Ok(x) => format!("OK {}", js(x)), Err(e) => format!("ERR {}", e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join(" | ")) }
}
pub fn check(ok: bool, what: &str) { if !ok { println!("WRONG: {}", what); std::process::exit(1); } }
pub fn same(a: &str, b: &str, what: &str) { if a != b { println!("WRONG: {}\n  got      {}\n  expected {}", what, a, b); std::process::exit(1); } }
pub fn copy_dir(a: &std::path::Path, b: &std::path::Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() { let e = e.unwrap(); if e.path().is_dir() { copy_dir(&e.path(), &b.join(e.file_name())); } else { std::fs::copy(e.path(), b.join(e.file_name())).unwrap(); } }
}
pub fn tree(d: &std::path::Path) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    fn go(d: &std::path::Path, r: &std::path::Path, v: &mut Vec<(String, Vec<u8>)>) { for e in std::fs::read_dir(d).unwrap() { let p = e.unwrap().path(); let n = p.strip_prefix(r).unwrap().display().to_string(); if p.is_dir() { v.push((n + "/", vec![])); go(&p, r, v); } else { v.push((n, std::fs::read(&p).unwrap())); } } }
    go(d, d, &mut v); v.sort(); v
}
/// A zip archive (deflated if asked) of the given members.
pub fn zip(members: &[(String, Vec<u8>)], deflate: bool) -> Vec<u8> {
    let (mut out, mut dir) = (vec![], vec![]);
    for (n, d) in members {
        let at = out.len() as u32;
        let crc = crc32fast::hash(d);
        let body = if deflate { miniz_oxide::deflate::compress_to_vec(d, 6) } else { d.clone() };
        let mut common = vec![];
        for x in [20u16, 0x800, if deflate { 8 } else { 0 }, 0, 0x21] { common.extend_from_slice(&x.to_le_bytes()); }
        for x in [crc, body.len() as u32, d.len() as u32] { common.extend_from_slice(&x.to_le_bytes()); }
        common.extend_from_slice(&(n.len() as u16).to_le_bytes()); common.extend_from_slice(&0u16.to_le_bytes());
        out.extend_from_slice(b"PK\x03\x04"); out.extend_from_slice(&common); out.extend_from_slice(n.as_bytes()); out.extend_from_slice(&body);
        dir.extend_from_slice(b"PK\x01\x02"); dir.extend_from_slice(&20u16.to_le_bytes()); dir.extend_from_slice(&common);
        for x in [0u16, 0, 0] { dir.extend_from_slice(&x.to_le_bytes()); }
        dir.extend_from_slice(&0u32.to_le_bytes()); dir.extend_from_slice(&at.to_le_bytes()); dir.extend_from_slice(n.as_bytes());
    }
    let at = out.len() as u32;
    out.extend_from_slice(&dir);
    out.extend_from_slice(b"PK\x05\x06\0\0\0\0");
    for x in [members.len() as u16, members.len() as u16] { out.extend_from_slice(&x.to_le_bytes()); }
    out.extend_from_slice(&(dir.len() as u32).to_le_bytes()); out.extend_from_slice(&at.to_le_bytes()); out.extend_from_slice(&[0, 0]);
    out
}
pub fn zip_dir(d: &std::path::Path, top: &str, deflate: bool) -> Vec<u8> { let m: Vec<(String, Vec<u8>)> = tree(d).into_iter().map(|(n, b)| (format!("{}/{}", top, n), b)).collect(); zip(&m, deflate) }
