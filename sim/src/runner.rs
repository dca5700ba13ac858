//! Builds a world for a spec, carries a spec out in a process of its own and collects what happened.
use crate::fs::{Class, FaultKind, FsFault, FsPlan};
use crate::model::{self, ModelSpec};
use crate::ops::{self, Op};
use crate::rt::{self, ClockJump, Preempt, StubFault};
use serde::{Deserialize, Serialize};
use snips_nlu_lib::{CRFSlotFiller, SharedResources, SnipsNluEngine};
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

pub const LOAD_NOW: i64 = 1_600_000_000;
pub fn default_now() -> i64 { LOAD_NOW }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub prop: String,
    pub seed: u64,
    pub model: ModelSpec,
    /// further models, in the directories m1, m2, ...
    #[serde(default)] pub others: Vec<ModelSpec>,
    pub hash_seed: u64,
    pub now: i64,
    #[serde(default)] pub load_now: i64,
    #[serde(default)] pub cap: Option<usize>,
    /// done once, before the process forks into the runs that share the result
    #[serde(default)] pub setup: Vec<Op>,
    #[serde(default)] pub pre: Vec<Op>,
    pub threads: Vec<Vec<Op>>,
    #[serde(default)] pub post: Vec<Op>,
    #[serde(default)] pub preempts: Vec<Preempt>,
    #[serde(default)] pub forced: Vec<u32>,
    #[serde(default)] pub stub_faults: Vec<StubFault>,
    #[serde(default)] pub jumps: Vec<ClockJump>,
    #[serde(default)] pub fs_faults: Vec<FsFault>,
    #[serde(default)] pub knobs: BTreeMap<String, i64>,
    /// further (entity, text) pairs whose recognition is looked at
    #[serde(default)] pub candidates: Vec<(String, String)>,
}
impl Spec {
    pub fn new(prop: &str, seed: u64, model: ModelSpec) -> Spec {
        Spec { prop: prop.into(), seed, model, others: vec![], hash_seed: 1, now: LOAD_NOW, load_now: LOAD_NOW, cap: None, setup: vec![], pre: vec![], threads: vec![], post: vec![], preempts: vec![], forced: vec![],
            stub_faults: vec![], jumps: vec![], fs_faults: vec![], knobs: BTreeMap::new(), candidates: vec![] }
    }
    pub fn all_ops(&self) -> impl Iterator<Item = &Op> { self.setup.iter().chain(&self.pre).chain(self.threads.iter().flatten()).chain(&self.post) }
    pub fn knob(&self, k: &str) -> i64 { self.knobs.get(k).cloned().unwrap_or(0) }
    /// the same situation without schedule and faults and with another client program
    pub fn calm(&self, pre: Vec<Op>, threads: Vec<Vec<Op>>, post: Vec<Op>) -> Spec {
        let mut s = self.clone();
        let all: Vec<Op> = self.all_ops().cloned().collect();
        for o in &all { if let Op::Inject { values, .. } = o { for v in values { if !s.candidates.contains(v) { s.candidates.push(v.clone()); } } } }
        s.candidates.sort();
        s.pre = pre; s.threads = threads; s.post = post;
        s.preempts.clear(); s.forced.clear(); s.stub_faults.clear(); s.jumps.clear(); s.fs_faults.clear(); s.knobs.clear();
        s
    }
    fn setup_key(&self) -> String { serde_json::to_string(&(&self.model, &self.others, &self.setup, self.hash_seed, self.cap, self.load_now, self.setup.is_empty())).unwrap() }
    pub fn size(&self) -> usize { self.all_ops().count() * 10 + self.preempts.len() * 3 + self.stub_faults.len() * 3 + self.jumps.len() * 3 + self.fs_faults.len() * 3 + self.forced.len() }
}

pub struct World {
    pub root: String,
    pub spec: Spec,
    pub engines: BTreeMap<usize, Arc<SnipsNluEngine>>,
    pub handles: BTreeMap<usize, usize>,
    pub fillers: BTreeMap<String, Arc<CRFSlotFiller>>,
    pub shared: Option<Arc<SharedResources>>,
    pub held: Vec<ops::Held>,
    pub reader_failures: u64,
    pub reader_reads: Vec<u64>,
    pub last_panic: String,
    files: Option<Vec<(String, Vec<u8>)>>,
}
impl World {
    pub fn zip_files(&mut self, z: &crate::zipw::ZipSpec) -> Vec<(String, Vec<u8>)> {
        if z.from.is_empty() { return self.files(); }
        ops::walk(&Path::new(&self.root).join(&z.from)).into_iter().filter(|f| !f.0.ends_with('/')).collect()
    }
    pub fn files(&mut self) -> Vec<(String, Vec<u8>)> {
        if self.files.is_none() { self.files = Some(ops::walk(&Path::new(&self.root).join("model")).into_iter().filter(|f| !f.0.ends_with('/')).collect()); }
        self.files.clone().unwrap()
    }
}
static mut WORLD: *mut World = std::ptr::null_mut();
pub fn no_world() -> bool { unsafe { WORLD.is_null() } }
pub fn world() -> &'static mut World { unsafe { &mut *WORLD } }

#[derive(Debug, Clone, Default, PartialEq, Serialize, Deserialize)]
pub struct Rec {
    pub r: String,
    /// injected failures met by this thread during the operation
    #[serde(default)] pub f: u64,
    /// clock values (indices into `clocks`) current during the operation
    #[serde(default)] pub c: (usize, usize),
}
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct PhaseRaw {
    pub recs: Vec<Vec<Rec>>,
    pub deadlock: Option<String>,
    pub a: u64, pub b: u64, pub switches: u64, pub preempts: u64, pub blocks: u64, pub sched_hash: u64, pub log_hash: u64, pub sim_ns: i64,
    pub stub_calls: [u64; 4], pub stub_fired: [u64; 4], pub jumps_fired: u64,
    pub clocks: Vec<i64>,
    pub escapes: Vec<String>, pub fds: Vec<String>, pub outside_reads: Vec<String>, pub mutated: Vec<String>,
    pub hard: u64, pub benign: u64, pub crashed: bool, pub fired: BTreeMap<String, u64>, pub fired_at: Vec<(String, Class, usize)>,
    pub fs_total: u64, pub mutations: u64,
    pub live: (i64, i64),
    pub log: Vec<String>,
    pub access: Vec<(usize, Class, String)>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Calib {
    pub a: u64, pub b: u64,
    pub a_at_b: Vec<u64>,
    pub sites: Vec<u64>,
    pub n_sites: usize,
    pub stub_calls: [u64; 4],
    /// (thread, class, nth within thread and class, nth within class, path)
    pub fs_points: Vec<(usize, Class, u64, u64, String)>,
    pub mutations: u64,
    pub mutations_by: Vec<u64>,
    pub reads: Vec<u64>,
}
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
#[serde(default)]
pub struct Raw {
    pub died: Option<String>,
    pub harness: Option<String>,
    pub phases: Vec<PhaseRaw>,
    pub calib: Option<Calib>,
    pub reader_failures: u64,
    pub setup_failed: Option<String>,
}
impl Raw {
    pub fn main(&self) -> &PhaseRaw { static E: std::sync::OnceLock<PhaseRaw> = std::sync::OnceLock::new(); self.phases.get(1).unwrap_or_else(|| E.get_or_init(PhaseRaw::default)) }
    pub fn pre(&self) -> &PhaseRaw { &self.phases[0] }
    pub fn post(&self) -> &[Rec] { self.phases.last().and_then(|p| p.recs.first()).map(|v| &v[..]).unwrap_or(&[]) }
    pub fn log_hash(&self) -> u64 { let mut h = 7; for p in &self.phases { h = rt::mix(h, p.log_hash); for r in p.recs.iter().flatten() { h = rt::mix_str(h, &r.r); } } h }
}

// ---- child processes ----
static mut RESULT_FD: i32 = -1;
pub fn child_died(msg: &str) -> ! {
    unsafe {
        let mut buf = [0u8; 512];
        let mut n = 0;
        for part in [b"{\"died\":\"" as &[u8], msg.as_bytes(), b"\"}"] { for b in part { if n < buf.len() { buf[n] = if *b == b'"' && part.len() != 2 && part[0] != b'{' { b'\'' } else { *b }; n += 1; } } }
        if RESULT_FD >= 0 { rt::raw_syscall(libc::SYS_write, RESULT_FD as usize, buf.as_ptr() as usize, n, 0, 0, 0); }
        else { rt::raw_syscall(libc::SYS_write, 2, buf.as_ptr() as usize, n, 0, 0, 0); }
        rt::raw_syscall(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
        loop {}
    }
}
/// A panic outside of any call into the code under test (those are caught): the harness is wrong.
pub fn body_panicked() -> ! {
    rt::quiet(|| {
        let out = format!("{{\"harness\":\"harness panic in a client: {}\"}}", PANIC_LOC.with(|l| l.borrow().replace('"', "'")));
        unsafe { rt::raw_syscall(libc::SYS_write, RESULT_FD.max(2) as usize, out.as_ptr() as usize, out.len(), 0, 0, 0); rt::raw_syscall(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0); }
    });
    loop {}
}
pub fn scratch_base() -> &'static str { static B: std::sync::OnceLock<&'static str> = std::sync::OnceLock::new(); B.get_or_init(|| if std::fs::create_dir("/dev/shm/.simh-probe").map(|_| std::fs::remove_dir("/dev/shm/.simh-probe").is_ok()).unwrap_or(Path::new("/dev/shm/.simh-probe").exists()) { "/dev/shm" } else { "/tmp" }) }
pub fn scratch_of(pid: i32) -> PathBuf { Path::new(scratch_base()).join(format!("simh-{:07}", pid)) }

/// Runs `f` in a forked child; what it returns comes back. The child's scratch directory is removed.
pub fn in_child(timeout_s: u64, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 { return Err("pipe".into()); }
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 { libc::close(fds[0]); libc::close(fds[1]); return Err("fork".into()); }
        if pid == 0 {
            libc::close(fds[0]);
            RESULT_FD = fds[1];
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let out = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(o) => o, Err(p) => { let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "?".into() }; serde_json::to_vec(&serde_json::json!({ "harness": format!("harness panic: {} {}", m, PANIC_LOC.with(|l| l.borrow().clone())) })).unwrap() } };
            let mut i = 0;
            while i < out.len() { let r = rt::raw_syscall(libc::SYS_write, fds[1] as usize, out.as_ptr() as usize + i, out.len() - i, 0, 0, 0); if r <= 0 { break; } i += r as usize; }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut file = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let start = std::time::Instant::now();
        let mut timed_out = false;
        let mut buf = [0u8; 65536];
        loop {
            let left = (timeout_s * 1000) as i128 - start.elapsed().as_millis() as i128;
            // The limit is one of computing time: a busy machine is not a run without end.
            if left <= 0 && (timeout_s >= 300 || cpu_of(pid) >= timeout_s as f64 || start.elapsed().as_secs() >= 4 * timeout_s) { timed_out = true; break; }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, left.clamp(200, 1000) as i32);
            if r > 0 { match file.read(&mut buf) { Ok(0) => break, Ok(n) => out.extend_from_slice(&buf[..n]), Err(_) => break } }
        }
        if timed_out { libc::kill(pid, libc::SIGKILL); }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let _ = std::fs::remove_dir_all(scratch_of(pid));
        if timed_out { return Err("timeout: the run did not end".into()); }
        if libc::WIFSIGNALED(st) { return Err(format!("killed by signal {}", libc::WTERMSIG(st))); }
        if out.is_empty() { return Err(format!("no result (status {:x})", st)); }
        Ok(out)
    }
}
/// Seconds of processor time a process has used, its own children aside.
fn cpu_of(pid: i32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<f64> = s.rsplit(')').next().unwrap_or("").split_whitespace().skip(11).take(2).filter_map(|x| x.parse().ok()).collect();
    f.iter().sum::<f64>() / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64
}
thread_local! { pub static PANIC_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        rt::quiet(|| {
            if rt::has_sim() && unsafe { !WORLD.is_null() } { world().last_panic = loc.clone(); }
            let _ = PANIC_LOC.try_with(|l| *l.borrow_mut() = loc);
        });
    }));
}

// ---- worlds ----
fn make_world(spec: &Spec) {
    let root = scratch_of(std::process::id() as i32).join("run");
    let _ = std::fs::remove_dir_all(root.parent().unwrap());
    std::fs::create_dir_all(root.join("tmp")).expect("scratch");
    model::write(&spec.model, &root.join("model"));
    for (i, m) in spec.others.iter().enumerate() { model::write(m, &root.join(format!("m{}", i + 1))); }
    std::fs::write(root.join("canary.txt"), "canary").expect("canary");
    std::env::set_var("TMPDIR", root.join("tmp"));
    let w = World { root: root.to_string_lossy().into_owned(), spec: spec.clone(), engines: BTreeMap::new(), handles: BTreeMap::new(), fillers: BTreeMap::new(), shared: None, held: vec![], reader_failures: 0, reader_reads: vec![], last_panic: String::new(), files: None };
    unsafe { WORLD = Box::into_raw(Box::new(w)); }
}
fn run_setup(spec: &Spec) -> Option<String> {
    if spec.setup.is_empty() { return None; }
    let cfg = rt::Cfg { hash_seed: spec.hash_seed, now_secs: spec.load_now, cache_cap: spec.cap, fs: FsPlan { root: world().root.clone(), ..Default::default() }, ..Default::default() };
    let setup = spec.setup.clone();
    let mut bad: Option<String> = None;
    let badp = &mut bad as *mut Option<String> as usize;
    let rep = rt::run(cfg, vec![Box::new(move || for op in &setup { let r = ops::exec(op); if !r.starts_with("OK") { rt::quiet(|| unsafe { *(badp as *mut Option<String>) = Some(format!("{:?}: {}", op, r)); }); } })]);
    if let Some(d) = rep.deadlock { return Some(d); }
    bad
}
#[derive(Debug, Clone, Copy, Default)]
pub struct Mode { pub record: bool, pub log: bool }

fn phase(spec: &Spec, which: u8, ops_: &[Vec<Op>], mode: Mode, raw: &mut Raw) -> bool {
    let main = which == 1;
    let w = world();
    let cfg = rt::Cfg {
        hash_seed: rt::mix(spec.hash_seed, 1000 + u64::from(which)), now_secs: spec.now, cache_cap: spec.cap,
        preempts: if main { spec.preempts.clone() } else { vec![] }, forced: if main { spec.forced.clone() } else { vec![] },
        stub_faults: if main { spec.stub_faults.clone() } else { vec![] }, clock_jumps: if main { spec.jumps.clone() } else { vec![] },
        fs: FsPlan { root: w.root.clone(), faults: if main { spec.fs_faults.clone() } else { vec![] }, trace: mode.record && main, power: if main { spec.knob("power") as u64 } else { 0 } },
        log: mode.log, record: mode.record && main,
    };
    let n = ops_.len();
    let store: Arc<std::sync::Mutex<Vec<Vec<Rec>>>> = Arc::new(std::sync::Mutex::new(vec![vec![]; n]));
    let log_access = spec.knob("access") != 0 && main;
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, l) in ops_.iter().enumerate() {
        let l = l.clone();
        let store = store.clone();
        bodies.push(Box::new(move || {
            for op in &l {
                let (f0, c0) = rt::quiet(|| { let s = rt::sim(); if log_access { s.fs.log_access = true; } let t = rt::tid(); s.event(|| format!("t{} begins {}", t, short(op)), 0xBE61); (s.fault_hits(t), s.clock_values.len() - 1) });
                rt::yield_now(0x70);
                let r = ops::exec(op);
                rt::quiet(|| {
                    let s = rt::sim();
                    let t = rt::tid();
                    let r = if r.starts_with("PANIC") { format!("{} @ {}", r, world().last_panic) } else { r };
                    let h = rt::mix_str(0xE4D, &r);
                    s.event(|| format!("t{} gets {}", t, r.chars().take(300).collect::<String>()), h);
                    let rec = Rec { r, f: s.fault_hits(t) - f0, c: (c0, s.clock_values.len() - 1) };
                    store.lock().unwrap()[i].push(rec);
                });
                rt::yield_now(0x71);
            }
        }));
    }
    let rep = rt::run(cfg, bodies);
    let dead = rep.deadlock.is_some();
    if mode.record && main { raw.calib = Some(calib(&rep, n)); }
    let mut fs = rep.fs;
    if fs.plan.power != 0 && !dead {
        fs.crashed = true;
        for f in crate::fs::power_loss(&w.root, &fs.dirty, fs.plan.power) { fs.hard_fired += 1; *fs.fired.entry("Power/Loss".into()).or_insert(0) += 1; fs.fired_at.push((f, Class::Sync, 0)); }
    }
    raw.phases.push(PhaseRaw {
        recs: std::mem::take(&mut *store.lock().unwrap()), deadlock: rep.deadlock, a: rep.a, b: rep.b, switches: rep.switches, preempts: rep.preempts_fired, blocks: rep.blocks, sched_hash: rep.sched_hash, log_hash: rep.log_hash, sim_ns: rep.sim_ns,
        stub_calls: rep.stub_calls, stub_fired: rep.stub_fired, jumps_fired: rep.jumps_fired, clocks: rep.clock_values,
        escapes: fs.escapes.clone(), fds: fs.fds.values().map(|f| f.path.replace(&w.root, "$R")).collect(), outside_reads: fs.outside_reads.iter().cloned().collect(), mutated: fs.mutated.iter().cloned().collect(),
        hard: fs.hard_fired, benign: fs.benign_fired, crashed: fs.crashed, fired: fs.fired.clone(), fired_at: fs.fired_at.clone(), fs_total: fs.total, mutations: fs.mutations,
        live: crate::alloc::live(), log: rep.log, access: fs.access_log.clone(),
    });
    !dead
}
fn short(op: &Op) -> String { serde_json::to_string(op).unwrap_or_default().chars().take(200).collect() }

fn calib(rep: &rt::Report, n: usize) -> Calib {
    let mut c = Calib { a: rep.a, b: rep.b, stub_calls: rep.stub_calls, mutations: rep.fs.mutations, n_sites: rep.sites.len(), mutations_by: vec![0; n.max(1)], ..Default::default() };
    let step = (rep.a_at_b.len() / 1500).max(1);
    c.a_at_b = rep.a_at_b.iter().step_by(step).cloned().collect();
    for s in &rep.sites { c.sites.extend(s.iter().take(6)); }
    if c.sites.len() > 6000 { let st = c.sites.len() / 6000 + 1; c.sites = c.sites.into_iter().step_by(st).collect(); }
    let mut by: BTreeMap<(usize, Class, u32), Vec<(u64, u64)>> = BTreeMap::new();
    let (mut n_class, mut n_tc): (BTreeMap<Class, u64>, BTreeMap<(usize, Class), u64>) = Default::default();
    for (cl, path, tid) in &rep.fs.trace {
        let a = n_class.entry(*cl).or_insert(0);
        let b = n_tc.entry((*tid, *cl)).or_insert(0);
        by.entry((*tid, *cl, *path)).or_default().push((*b, *a));
        *a += 1; *b += 1;
        if cl.mutating() && *tid < c.mutations_by.len() { c.mutations_by[*tid] += 1; }
    }
    for ((t, cl, path), v) in by {
        let k = v.len();
        let mut idx = vec![0, k - 1, k / 2, (rt::mix(k as u64, u64::from(path)) % k as u64) as usize];
        idx.sort(); idx.dedup();
        for i in idx { c.fs_points.push((t, cl, v[i].0, v[i].1, rep.fs.paths[path as usize].clone())); }
    }
    c.reads = world().reader_reads.clone();
    c
}

fn run_here(spec: &Spec, mode: Mode) -> Raw {
    let mut raw = Raw::default();
    world().spec = spec.clone();
    let one = |v: &Vec<Op>| vec![v.clone()];
    let reps = spec.knob("repeat").max(1);
    if !phase(spec, 0, &one(&spec.pre), mode, &mut raw) { return raw; }
    for i in 0..reps {
        if !phase(spec, 1, &spec.threads, Mode { record: mode.record && i == 0, ..mode }, &mut raw) { return raw; }
        if reps > 1 && !phase(spec, 3, &[vec![Op::ReleaseAll]], mode, &mut raw) { return raw; }
    }
    phase(spec, 2, &one(&spec.post), mode, &mut raw);
    raw.reader_failures = world().reader_failures;
    raw
}
fn wall_limit() -> u64 { 60 }
fn encode(r: &Raw) -> Vec<u8> { serde_json::to_vec(r).unwrap() }
fn decode(r: Result<Vec<u8>, String>) -> Raw {
    match r { Err(e) => Raw { died: Some(e), ..Default::default() }, Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| Raw { harness: Some(format!("undecodable result: {}", e)), ..Default::default() }) }
}

/// A process that has prepared the world of a base spec; runs and references are forked off it.
pub struct Ctx { key: String, pub setup_failed: Option<String>, cache: HashMap<String, Rc<Raw>>, pub runs: u64, disk: Vec<(String, Vec<u8>)>, dirty: bool, helper: i32 }
/// A run in a process in which the code under test has done nothing yet (if this one is such).
fn in_fresh(spec: &Spec, mode: Mode) -> Result<Vec<u8>, String> {
    in_child(wall_limit(), || {
        make_world(spec);
        if let Some(e) = run_setup(spec) { return encode(&Raw { setup_failed: Some(e), ..Default::default() }); }
        encode(&run_here(spec, mode))
    })
}
fn send(fd: i32, d: &[u8]) -> bool {
    let mut all = (d.len() as u64).to_le_bytes().to_vec();
    all.extend_from_slice(d);
    let mut i = 0;
    while i < all.len() { let r = unsafe { rt::raw_syscall(libc::SYS_sendto, fd as usize, all.as_ptr() as usize + i, all.len() - i, libc::MSG_NOSIGNAL as usize, 0, 0) }; if r == -(libc::EINTR as isize) { continue; } if r <= 0 { return false; } i += r as usize; }
    true
}
fn receive(fd: i32) -> Option<Vec<u8>> {
    let get = |n: usize| { let mut b = vec![0u8; n]; let mut i = 0; while i < n { let r = unsafe { rt::raw_syscall(libc::SYS_read, fd as usize, b.as_mut_ptr() as usize + i, n - i, 0, 0, 0) }; if r == -(libc::EINTR as isize) { continue; } if r <= 0 { return None; } i += r as usize; } Some(b) };
    let n = get(8)?;
    get(u64::from_le_bytes(n.try_into().unwrap()) as usize)
}
/// A process forked before the set-up: runs that do not share the set-up start from it, so that nothing the code under
/// test keeps in memory of its process is there when they start.
fn start_helper() -> i32 {
    unsafe {
        let mut s = [0i32; 2];
        if libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, s.as_mut_ptr()) != 0 { return -1; }
        let high = |fd: i32| { let h = libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, 700); if h < 0 { fd } else { libc::close(fd); h } };
        let (mine, other) = (high(s[0]), high(s[1]));
        let _ = std::io::stdout().flush();
        let pid = libc::fork();
        if pid < 0 { libc::close(mine); libc::close(other); return -1; }
        if pid > 0 { libc::close(other); return mine; }
        libc::close(mine);
        if RESULT_FD >= 0 { libc::close(RESULT_FD); RESULT_FD = -1; }
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        while let Some(q) = receive(other) {
            let (spec, record, log): (Spec, bool, bool) = match serde_json::from_slice(&q) { Ok(x) => x, Err(_) => break };
            let out = match in_fresh(&spec, Mode { record, log }) { Ok(mut o) => { o.insert(0, 1); o } Err(e) => { let mut o = vec![0]; o.extend(e.into_bytes()); o } };
            if !send(other, &out) { break; }
        }
        libc::_exit(0)
    }
}
fn ask_helper(fd: i32, spec: &Spec, mode: Mode) -> Option<Result<Vec<u8>, String>> {
    if !send(fd, &serde_json::to_vec(&(spec, mode.record, mode.log)).unwrap()) { return None; }
    let mut a = receive(fd)?;
    if a.is_empty() { return None; }
    Some(if a.remove(0) == 1 { Ok(a) } else { Err(String::from_utf8_lossy(&a).into_owned()) })
}
impl Ctx {
    /// Must be called in a process of its own.
    pub fn new(spec: &Spec) -> Ctx {
        let mut c = Ctx { key: String::new(), setup_failed: None, cache: HashMap::new(), runs: 0, disk: vec![], dirty: false, helper: -1 };
        if !spec.setup.is_empty() { c.helper = start_helper(); make_world(spec); c.setup_failed = run_setup(spec); c.key = spec.setup_key(); c.disk = ops::walk(Path::new(&world().root)); }
        c
    }
    pub fn run(&mut self, spec: &Spec, mode: Mode) -> Raw {
        self.runs += 1;
        let shared = !spec.setup.is_empty() && spec.setup_key() == self.key;
        if shared && self.dirty { self.restore(); }
        if shared { self.dirty = spec.pre.iter().chain(spec.threads.iter().flatten()).chain(&spec.post).any(|o| matches!(o, Op::Inject { .. } | Op::Damage { .. } | Op::Put { .. } | Op::Update { .. } | Op::LoadZip { .. } | Op::FfiCreate { .. })); }
        let helper = self.helper;
        let attempt = || {
            if shared { return in_child(wall_limit(), || encode(&run_here(spec, mode))); }
            if helper >= 0 { if let Some(r) = ask_helper(helper, spec, mode) { return r; } }
            in_fresh(spec, mode)
        };
        let mut r = attempt();
        if let Err(e) = &r { if e.starts_with("timeout") || e.starts_with("no result") || e == "fork" || e == "pipe" || e.contains("signal 9") { r = attempt(); } }
        let raw = decode(r);
        if shared && (raw.died.is_some() || raw.harness.is_some() || raw.phases.iter().any(|p| !p.mutated.is_empty() || p.deadlock.is_some())) { self.dirty = true; }
        raw
    }
    /// The runs that share a setup share its disk: put it back as it was.
    fn restore(&mut self) {
        let root = PathBuf::from(&world().root);
        if ops::walk(&root) == self.disk { self.dirty = false; return; }
        for n in std::fs::read_dir(&root).into_iter().flatten().flatten() { let p = n.path(); if p.is_dir() { let _ = std::fs::remove_dir_all(&p); } else { let _ = std::fs::remove_file(&p); } }
        for (n, d) in &self.disk {
            let p = root.join(n);
            if n.ends_with('/') { let _ = std::fs::create_dir_all(&p); continue; }
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            let _ = std::fs::write(&p, d);
        }
        self.dirty = false;
    }
    /// A run whose outcome serves as reference (computed once).
    pub fn reference(&mut self, spec: &Spec) -> Rc<Raw> {
        let k = serde_json::to_string(spec).unwrap();
        if let Some(r) = self.cache.get(&k) { return r.clone(); }
        let r = Rc::new(self.run(spec, Mode::default()));
        self.cache.insert(k, r.clone());
        r
    }
    /// What an operation answers as the only one on a fresh engine with the clock at `now`.
    pub fn alone(&mut self, spec: &Spec, op: &Op, now: i64) -> String {
        let mut s = spec.calm(vec![], vec![vec![op.clone()]], vec![]);
        s.now = now;
        s.candidates.clear();
        let r = self.reference(&s);
        r.phases.get(1).and_then(|p| p.recs.first()).and_then(|v| v.first()).map(|x| x.r.clone()).unwrap_or_else(|| format!("NOREF {:?} {:?}", r.died, r.harness))
    }
}
#[allow(dead_code)] fn _k(_: FaultKind) {}
