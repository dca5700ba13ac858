//! Simulated disk: the libc file functions as seen by simulated threads. Operations inside the scratch root
//! are carried out on a real (memory backed) scratch directory unless the plan says otherwise; anything that
//! would modify something outside the root is refused and recorded.
use crate::rt::{active, raw_syscall, real_dl, real_fn, ret, set_errno, sim, Hook};
use libc::{c_char, c_int, c_void};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::CStr;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Class { Open, Create, Read, Write, Mkdir, Rename, Remove, Stat, Dir, Link, Meta, Sync }
impl Class {
    pub fn mutating(self) -> bool { matches!(self, Class::Create | Class::Write | Class::Mkdir | Class::Rename | Class::Remove | Class::Link | Class::Meta) }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum FaultKind { Eio, Enoent, Eacces, Emfile, Enospc, Eintr, Short, Crash, CrashTorn }
impl FaultKind {
    pub fn benign(self) -> bool { matches!(self, FaultKind::Eintr | FaultKind::Short) }
    pub fn crash(self) -> bool { matches!(self, FaultKind::Crash | FaultKind::CrashTorn) }
    fn errno(self) -> c_int {
        match self { FaultKind::Enoent => libc::ENOENT, FaultKind::Eacces => libc::EACCES, FaultKind::Emfile => libc::EMFILE, FaultKind::Enospc => libc::ENOSPC, FaultKind::Eintr => libc::EINTR, _ => libc::EIO }
    }
}
/// The `nth` operation of class `class` (crashes: the nth modifying operation of any class) meets `kind`;
/// sticky: so do all later ones of the class. With `tid` only operations of that thread count.
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct FsFault { pub class: Option<Class>, pub nth: u64, pub kind: FaultKind, #[serde(default)] pub sticky: bool, #[serde(default)] pub tid: Option<usize> }

#[derive(Debug, Clone, Default)]
/// `power` != 0: the power fails at the crash point (or at the end of the run): what was written to a file since
/// it was last synchronised may be lost, see `power_loss`.
pub struct FsPlan { pub root: String, pub faults: Vec<FsFault>, pub trace: bool, pub power: u64 }

#[derive(Debug, Clone)]
pub struct FdInfo { pub path: String, pub dir: bool, pub write: bool }

#[derive(Default)]
pub struct FsState {
    _pin: std::marker::PhantomPinned,
    pub plan: FsPlan,
    counts: BTreeMap<(Option<usize>, Option<Class>), u64>,
    pub total: u64,
    pub mutations: u64,
    pub trace: Vec<(Class, u32, usize)>,
    pub paths: Vec<String>,
    path_ids: HashMap<String, u32>,
    pub fired: BTreeMap<String, u64>,
    pub hard_fired: u64,
    pub benign_fired: u64,
    pub crashed: bool,
    pub frozen: bool,
    frozen_tids: BTreeSet<usize>,
    pub fds: BTreeMap<c_int, FdInfo>,
    pub escapes: Vec<String>,
    pub outside_reads: BTreeSet<String>,
    pub mutated: BTreeSet<String>,
    tmp_names: HashMap<String, usize>,
    pub fired_at: Vec<(String, Class, usize)>,
    pub access_log: Vec<(usize, Class, String)>,
    pub log_access: bool,
    /// files (device, inode) with data that is not on stable storage yet
    pub dirty: BTreeSet<(u64, u64)>,
}
enum Act { Pass, Fail(c_int), Short, Torn }

impl FsState {
    pub fn new(plan: FsPlan) -> Self { FsState { plan, ..Default::default() } }
    pub fn canon(&mut self, p: &str) -> String {
        let rel = p.strip_prefix(&self.plan.root).unwrap_or(p);
        let mut out = String::new();
        for c in rel.split('/') {
            if c.is_empty() { continue; }
            let in_tmp = out == "/tmp";
            out.push('/');
            if in_tmp || c.starts_with('.') && c.len() >= 6 { let n = self.tmp_names.len(); let k = *self.tmp_names.entry(c.to_string()).or_insert(n); out.push_str(&format!(".TMP{}", k)); } else { out.push_str(c); }
        }
        out
    }
    fn op(&mut self, class: Class, path: &str, tid: usize) -> Act {
        self.total += 1;
        let short = self.canon(path);
        if self.plan.trace {
            let n = self.paths.len() as u32;
            let id = *self.path_ids.entry(short.clone()).or_insert(n);
            if id == n { self.paths.push(short.clone()); }
            self.trace.push((class, id, tid));
        }
        if self.log_access { self.access_log.push((tid, class, short.clone())); }
        let mut keys = vec![(None, Some(class)), (Some(tid), Some(class))];
        if class.mutating() { keys.push((None, None)); keys.push((Some(tid), None)); self.mutations += 1; }
        let mut idx = BTreeMap::new();
        for k in keys { let c = self.counts.entry(k).or_insert(0); idx.insert(k, *c); *c += 1; }
        if class.mutating() && (self.frozen || self.frozen_tids.contains(&tid)) { return Act::Fail(libc::EIO); }
        let mut act = Act::Pass;
        let mut hit: Option<FaultKind> = None;
        for f in &self.plan.faults {
            let key = (f.tid, if f.kind.crash() { None } else { f.class });
            if let Some(i) = idx.get(&key) { if *i == f.nth || (f.sticky && *i > f.nth) { hit = Some(f.kind); if f.kind.crash() { if let Some(t) = f.tid { self.frozen_tids.insert(t); } else { self.frozen = true; } } break; } }
        }
        if let Some(k) = hit {
            *self.fired.entry(format!("{:?}/{:?}", class, k)).or_insert(0) += 1;
            if self.fired_at.len() < 64 { self.fired_at.push((short, class, tid)); }
            if k.benign() { self.benign_fired += 1 } else { self.hard_fired += 1 }
            act = match k {
                FaultKind::Short => Act::Short,
                FaultKind::Crash => { self.crashed = true; Act::Fail(libc::EIO) }
                FaultKind::CrashTorn => { self.crashed = true; if class == Class::Write { Act::Torn } else { Act::Fail(libc::EIO) } }
                k => Act::Fail(k.errno()),
            };
        }
        act
    }
}

fn inode(fd: c_int) -> Option<(u64, u64)> {
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    if unsafe { raw_syscall(libc::SYS_fstat, fd as usize, &mut st as *mut _ as usize, 0, 0, 0, 0) } == 0 { Some((st.st_dev, st.st_ino)) } else { None }
}
/// The data of an open file was changed; `synced`: it was brought to stable storage.
fn dirty(fd: c_int, synced: bool) {
    let fs = &mut sim().fs;
    if fs.plan.power == 0 || !fs.fds.contains_key(&fd) || fs.frozen && synced { return; }
    if let Some(i) = inode(fd) { if synced { fs.dirty.remove(&i); } else { fs.dirty.insert(i); } }
}
/// What a power failure does on a journaling file system: operations on names were carried out in order, but the
/// data of a file which was not synchronised may have reached the disk, in part, as zeros or not at all.
/// Returns the files that were damaged and how.
pub fn power_loss(root: &str, dirty: &BTreeSet<(u64, u64)>, seed: u64) -> Vec<String> {
    use std::os::unix::fs::MetadataExt;
    let mut r = crate::rng::Rng::new(seed);
    let mut out = vec![];
    let mut stack = vec![std::path::PathBuf::from(root)];
    let mut files = vec![];
    while let Some(d) = stack.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            match std::fs::symlink_metadata(&p) { Ok(m) if m.is_dir() => stack.push(p), Ok(m) if m.is_file() && dirty.contains(&(m.dev(), m.ino())) => files.push((p, m.len())), _ => {} }
        }
    }
    files.sort();
    for (p, len) in files {
        let how = r.below(5);
        let keep = if len == 0 { 0 } else { r.next() % len };
        let ok = match how {
            0 => continue,
            1 | 2 => std::fs::write(&p, b"").is_ok(),
            3 => std::fs::OpenOptions::new().write(true).open(&p).and_then(|f| f.set_len(keep)).is_ok(),
            _ => std::fs::write(&p, vec![0u8; len as usize]).is_ok(),
        };
        if ok { out.push(format!("{} {}", p.to_string_lossy().replace(root, ""), ["", "empty", "empty", "cut short", "zeros"][how])); }
    }
    out
}

fn normalise(p: &str) -> String {
    let mut parts: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { parts.pop(); } c => parts.push(c) } }
    format!("/{}", parts.join("/"))
}
unsafe fn resolve(dirfd: c_int, p: *const c_char) -> String {
    let s = String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).into_owned();
    if s.starts_with('/') { return normalise(&s); }
    let st = &sim().fs;
    if dirfd == libc::AT_FDCWD { return normalise(&format!("{}/{}", st.plan.root, s)); }
    match st.fds.get(&dirfd) { Some(i) => normalise(&format!("{}/{}", i.path, s)), None => normalise(&format!("/?fd{}/{}", dirfd, s)) }
}
fn inside(p: &str) -> bool { let r = &sim().fs.plan.root; p == r || (p.starts_with(r.as_str()) && p.as_bytes().get(r.len()) == Some(&b'/')) }

/// Common part of all path operations. `Err(errno)`: the operation fails without being carried out.
fn path_op(class: Class, path: &str) -> Result<(), c_int> {
    let s = sim();
    let t = crate::rt::tid();
    if !inside(path) {
        if class.mutating() { s.fs.escapes.push(format!("{:?} {}", class, path)); return Err(libc::EACCES); }
        s.fs.outside_reads.insert(path.to_string());
        s.fs.total += 1;
        return Ok(());
    }
    let act = s.fs.op(class, path, t);
    let c = s.fs.canon(path);
    let failed = !matches!(act, Act::Pass | Act::Short);
    if failed { s.note_fault_hit(); }
    s.event(|| format!("fs {:?} {}{}", class, c, if failed { " -> FAULT" } else { "" }), crate::rt::mix_str(0xF5 + class as u64, &c) + u64::from(failed));
    crate::rt::Sim::b_step(0x100 + class as u64);
    match act {
        Act::Fail(e) => Err(e),
        Act::Torn => Err(libc::EIO),
        _ => { if class.mutating() { s.fs.mutated.insert(c); } Ok(()) }
    }
}
/// Data transfer on an open file: how many bytes may be transferred, and whether to report failure afterwards.
fn data_op(class: Class, fd: c_int, len: usize) -> Option<Result<(usize, bool), c_int>> {
    let s = sim();
    let path = s.fs.fds.get(&fd)?.path.clone();
    let act = s.fs.op(class, &path, crate::rt::tid());
    let failed = matches!(act, Act::Fail(_) | Act::Torn);
    if failed { s.note_fault_hit(); }
    let c = if s.cfg.log { s.fs.canon(&path) } else { String::new() };
    s.event(|| format!("fs {:?} {} len {}{}", class, c, len, if failed { " -> FAULT" } else { "" }), 0xDA + class as u64 + u64::from(failed) * 32);
    crate::rt::Sim::b_step(0x100 + class as u64);
    Some(match act {
        Act::Pass => Ok((len, false)),
        Act::Short => Ok((if len > 1 { (len / 2).max(1) } else { len }, false)),
        Act::Torn => Ok((len / 2, true)),
        Act::Fail(e) => Err(e),
    })
}
fn track(fd: isize, path: &str, dir: bool, write: bool) { if fd >= 0 { sim().fs.fds.insert(fd as c_int, FdInfo { path: path.to_string(), dir, write }); } }

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    let raw = |f: c_int| raw_syscall(libc::SYS_openat, dirfd as isize as usize, path as usize, f as usize, mode as usize, 0, 0);
    if !active() { return ret(raw(flags)) as c_int; }
    let _h = Hook::new();
    let p = resolve(dirfd, path);
    let write = flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0;
    let dir = flags & libc::O_DIRECTORY == libc::O_DIRECTORY;
    let class = if write { Class::Create } else if dir { Class::Dir } else { Class::Open };
    if let Err(e) = path_op(class, &p) { set_errno(e); return -1; }
    let r = raw(flags);
    if inside(&p) { track(r, &p, dir, write); if r >= 0 && flags & libc::O_TRUNC != 0 { dirty(r as c_int, false); } }
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(libc::AT_FDCWD, path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(d, path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int { do_open(d, path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn creat(path: *const c_char, mode: u32) -> c_int { do_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }
#[no_mangle] pub unsafe extern "C" fn creat64(path: *const c_char, mode: u32) -> c_int { creat(path, mode) }

#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if active() { let _h = Hook::new(); if sim().fs.fds.remove(&fd).is_some() { crate::rt::Sim::b_step(0x1F0); } }
    ret(raw_syscall(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn data(class: Class, fd: c_int, len: usize, f: impl Fn(usize) -> isize) -> isize {
    if !active() { return ret(f(len)); }
    let _h = Hook::new();
    match data_op(class, fd, len) {
        None => ret(f(len)),
        Some(Err(e)) => { set_errno(e); -1 }
        Some(Ok((n, fail))) => { let r = f(n); if class == Class::Write { let p = sim().fs.fds[&fd].path.clone(); let c = sim().fs.canon(&p); sim().fs.mutated.insert(c); dirty(fd, false); } if fail { set_errno(libc::EIO); -1 } else { ret(r) } }
    }
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: usize) -> isize { data(Class::Read, fd, len, |n| raw_syscall(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize { data(Class::Write, fd, len, |n| raw_syscall(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: usize, off: i64) -> isize { data(Class::Read, fd, len, |n| raw_syscall(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, off: i64) -> isize { data(Class::Write, fd, len, |n| raw_syscall(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if active() && n >= 1 { return read(fd, (*iov).iov_base, (*iov).iov_len); }
    ret(raw_syscall(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if active() && n >= 1 {
        for i in 0..n as usize { let v = &*iov.add(i); if v.iov_len > 0 { return write(fd, v.iov_base, v.iov_len); } }
        return 0;
    }
    ret(raw_syscall(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 { ret(raw_syscall(libc::SYS_lseek, fd as usize, off as usize, wh as usize, 0, 0, 0)) as i64 }
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 { lseek64(fd, off, wh) }
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, len: usize, fl: u32) -> isize {
    if active() { set_errno(libc::ENOSYS); return -1; }
    ret(raw_syscall(libc::SYS_copy_file_range, a as usize, ao as usize, b as usize, bo as usize, len, fl as usize))
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if active() { set_errno(libc::ENOSYS); return -1; }
    ret(raw_syscall(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn splice(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, len: usize, fl: u32) -> isize {
    if active() { set_errno(libc::EINVAL); return -1; }
    ret(raw_syscall(libc::SYS_splice, a as usize, ao as usize, b as usize, bo as usize, len, fl as usize))
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let r = raw_syscall(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0);
    if r >= 0 && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) && active() { let _h = Hook::new(); if let Some(i) = sim().fs.fds.get(&fd).cloned() { sim().fs.fds.insert(r as c_int, i); } }
    ret(r) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl(fd, cmd, arg) }

/// fd operation without data
unsafe fn fd_op(class: Class, fd: c_int, f: impl FnOnce() -> isize) -> c_int {
    if active() {
        let _h = Hook::new();
        if let Some(Err(e)) = data_op(class, fd, 0) { set_errno(e); return -1; }
    }
    ret(f()) as c_int
}
unsafe fn sync_op(fd: c_int, nr: i64) -> c_int {
    let r = fd_op(Class::Sync, fd, || raw_syscall(nr, fd as usize, 0, 0, 0, 0, 0));
    if r == 0 && active() { let _h = Hook::new(); dirty(fd, true); }
    r
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { sync_op(fd, libc::SYS_fsync) }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { sync_op(fd, libc::SYS_fdatasync) }
/// Everything is synchronised (for the scratch directory only: the real disks are left alone).
#[no_mangle] pub unsafe extern "C" fn sync() {
    if active() { let _h = Hook::new(); let fs = &mut sim().fs; if !fs.frozen { fs.dirty.clear(); } } else { raw_syscall(libc::SYS_sync, 0, 0, 0, 0, 0, 0); }
}
#[no_mangle] pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    if active() { let r = fd_op(Class::Sync, fd, || 0); if r == 0 { sync(); } return r; }
    ret(raw_syscall(libc::SYS_syncfs, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let r = fd_op(Class::Meta, fd, || raw_syscall(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0));
    if r == 0 && active() { let _h = Hook::new(); dirty(fd, false); }
    r
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int { ftruncate64(fd, len) }
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: u32) -> c_int { fd_op(Class::Meta, fd, || raw_syscall(libc::SYS_fchmod, fd as usize, m as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn futimens(fd: c_int, ts: *const c_void) -> c_int { fd_op(Class::Meta, fd, || raw_syscall(libc::SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    // a blocking flock must not stop the one running thread: try, and let the others run
    if !active() { return ret(raw_syscall(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int; }
    let mut tries = 0;
    loop {
        let r = raw_syscall(libc::SYS_flock, fd as usize, (op | libc::LOCK_NB) as usize, 0, 0, 0, 0);
        if r != -(libc::EWOULDBLOCK as isize) || op & libc::LOCK_NB != 0 || tries > 100_000 { return ret(r) as c_int; }
        tries += 1;
        crate::rt::sched_yield();
    }
}

unsafe fn p1(class: Class, dirfd: c_int, path: *const c_char, f: impl FnOnce() -> isize) -> c_int {
    if !active() { return ret(f()) as c_int; }
    let _h = Hook::new();
    let p = resolve(dirfd, path);
    if let Err(e) = path_op(class, &p) { set_errno(e); return -1; }
    ret(f()) as c_int
}
unsafe fn p2(class: Class, d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, f: impl FnOnce() -> isize) -> c_int {
    if !active() { return ret(f()) as c_int; }
    let _h = Hook::new();
    let (pa, pb) = (resolve(d1, a), resolve(d2, b));
    if !inside(&pa) { if let Err(e) = path_op(class, &pa) { set_errno(e); return -1; } }
    if let Err(e) = path_op(class, &pb) { set_errno(e); return -1; }
    if inside(&pa) { let c = sim().fs.canon(&pa); sim().fs.mutated.insert(c); }
    let r = f();
    if r >= 0 && class == Class::Rename {
        for i in sim().fs.fds.values_mut() { if i.path == pa || i.path.starts_with(&format!("{}/", pa)) { i.path = format!("{}{}", pb, &i.path[pa.len()..]); } }
    }
    ret(r) as c_int
}
const CWD: c_int = libc::AT_FDCWD;
fn u(d: c_int) -> usize { d as isize as usize }
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: u32) -> c_int { p1(Class::Mkdir, CWD, p, || raw_syscall(libc::SYS_mkdir, p as usize, m as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: u32) -> c_int { p1(Class::Mkdir, d, p, || raw_syscall(libc::SYS_mkdirat, u(d), p as usize, m as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int { p1(Class::Remove, CWD, p, || raw_syscall(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int { p1(Class::Remove, CWD, p, || raw_syscall(libc::SYS_unlink, p as usize, 0, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int { p1(Class::Remove, d, p, || raw_syscall(libc::SYS_unlinkat, u(d), p as usize, f as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { p2(Class::Rename, CWD, a, CWD, b, || raw_syscall(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn renameat(d: c_int, a: *const c_char, e: c_int, b: *const c_char) -> c_int { p2(Class::Rename, d, a, e, b, || raw_syscall(libc::SYS_renameat, u(d), a as usize, u(e), b as usize, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn renameat2(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: u32) -> c_int { p2(Class::Rename, d, a, e, b, || raw_syscall(libc::SYS_renameat2, u(d), a as usize, u(e), b as usize, fl as usize, 0)) }
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int { p2(Class::Link, CWD, a, CWD, b, || raw_syscall(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, fl: c_int) -> c_int { p2(Class::Link, d, a, e, b, || raw_syscall(libc::SYS_linkat, u(d), a as usize, u(e), b as usize, fl as usize, 0)) }
#[no_mangle] pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int { p1(Class::Link, CWD, b, || raw_syscall(libc::SYS_symlink, a as usize, b as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn symlinkat(a: *const c_char, e: c_int, b: *const c_char) -> c_int { p1(Class::Link, e, b, || raw_syscall(libc::SYS_symlinkat, a as usize, u(e), b as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: u32) -> c_int { p1(Class::Meta, CWD, p, || raw_syscall(libc::SYS_chmod, p as usize, m as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn fchmodat(d: c_int, p: *const c_char, m: u32, _f: c_int) -> c_int { p1(Class::Meta, d, p, || raw_syscall(libc::SYS_fchmodat, u(d), p as usize, m as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn truncate64(p: *const c_char, l: i64) -> c_int { p1(Class::Meta, CWD, p, || raw_syscall(libc::SYS_truncate, p as usize, l as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn utimensat(d: c_int, p: *const c_char, ts: *const c_void, fl: c_int) -> c_int { p1(Class::Meta, d, p, || raw_syscall(libc::SYS_utimensat, u(d), p as usize, ts as usize, fl as usize, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int { p1(Class::Stat, CWD, p, || raw_syscall(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, m: c_int, _f: c_int) -> c_int { p1(Class::Stat, d, p, || raw_syscall(libc::SYS_faccessat, u(d), p as usize, m as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut c_void) -> c_int { p1(Class::Stat, CWD, p, || raw_syscall(libc::SYS_newfstatat, u(CWD), p as usize, b as usize, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn stat(p: *const c_char, b: *mut c_void) -> c_int { stat64(p, b) }
#[no_mangle] pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut c_void) -> c_int { p1(Class::Stat, CWD, p, || raw_syscall(libc::SYS_newfstatat, u(CWD), p as usize, b as usize, libc::AT_SYMLINK_NOFOLLOW as usize, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn lstat(p: *const c_char, b: *mut c_void) -> c_int { lstat64(p, b) }
#[no_mangle] pub unsafe extern "C" fn fstatat64(d: c_int, p: *const c_char, b: *mut c_void, f: c_int) -> c_int { p1(Class::Stat, d, p, || raw_syscall(libc::SYS_newfstatat, u(d), p as usize, b as usize, f as usize, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, b: *mut c_void) -> c_int { fd_op(Class::Stat, fd, || raw_syscall(libc::SYS_fstat, fd as usize, b as usize, 0, 0, 0, 0)) }
#[no_mangle] pub unsafe extern "C" fn fstat(fd: c_int, b: *mut c_void) -> c_int { fstat64(fd, b) }
#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, b: *mut c_void) -> c_int {
    let raw = || raw_syscall(libc::SYS_statx, u(d), p as usize, fl as usize, mask as usize, b as usize, 0);
    if !p.is_null() && *p == 0 && fl & libc::AT_EMPTY_PATH != 0 { return fd_op(Class::Stat, d, raw); }
    if p.is_null() { return ret(raw()) as c_int; }
    p1(Class::Stat, d, p, raw)
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
    if active() { let _h = Hook::new(); let q = resolve(CWD, p); if let Err(e) = path_op(Class::Stat, &q) { set_errno(e); return -1; } }
    ret(raw_syscall(libc::SYS_readlink, p as usize, b as usize, n, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = real_fn!("realpath", _);
    if active() { let _h = Hook::new(); let q = resolve(CWD, p); if let Err(e) = path_op(Class::Stat, &q) { set_errno(e); return std::ptr::null_mut(); } return f(p, out); }
    f(p, out)
}
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let f: unsafe extern "C" fn(*const c_char) -> *mut c_void = real_fn!("opendir", _);
    if !active() { return f(p); }
    let _h = Hook::new();
    let q = resolve(CWD, p);
    if let Err(e) = path_op(Class::Dir, &q) { set_errno(e); return std::ptr::null_mut(); }
    let d = f(p);
    if !d.is_null() && inside(&q) { track(libc::dirfd(d as *mut libc::DIR) as isize, &q, true, false); }
    d
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let f: unsafe extern "C" fn(*mut c_void) -> c_int = real_fn!("closedir", _);
    if active() { let _h = Hook::new(); sim().fs.fds.remove(&libc::dirfd(d as *mut libc::DIR)); return f(d); }
    f(d)
}
#[no_mangle] pub unsafe extern "C" fn mkdtemp(t: *mut c_char) -> *mut c_char {
    let n = libc::strlen(t);
    let mut seed = 0u64;
    crate::rt::getrandom(&mut seed as *mut u64 as *mut c_void, 8, 0);
    for i in 0..6 { *t.add(n - 6 + i) = b"abcdefghijklmnop"[(seed >> (4 * i)) as usize & 15] as c_char; }
    if mkdir(t, 0o700) == 0 { t } else { std::ptr::null_mut() }
}
#[allow(dead_code)] fn _keep() { let _ = real_dl::<usize>; }
