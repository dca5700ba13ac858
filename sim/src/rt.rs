//! The simulator: client threads are real OS threads of which exactly one runs at any moment. Whoever runs
//! may be switched out at any basic-block edge of the code under test (A-steps: compiler inserted callbacks)
//! and at any system call or stub call it makes (B-steps). Futexes, clocks, sleeping, thread creation and
//! joining, randomness and file operations are simulated; everything is decided by the plan in `Cfg`.
use crate::alloc::TRACK;
use libc::{c_int, c_long, c_void};
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum StepKind { A, B }

/// At the `at`-th step of the given kind hand over to the `pick`-th other runnable thread.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct Preempt { pub kind: StepKind, pub at: u64, pub pick: u32 }

/// The `nth` call (0-based) into a collaborator of that kind (1 builtin parser, 2 gazetteer parser, 3 tagger) fails.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct StubFault { pub kind: u32, pub nth: u64 }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct ClockJump { pub at_b: u64, pub delta_secs: i64 }

#[derive(Debug, Clone, Default)]
pub struct Cfg {
    pub hash_seed: u64,
    pub now_secs: i64,
    pub preempts: Vec<Preempt>,
    pub forced: Vec<u32>,
    pub stub_faults: Vec<StubFault>,
    pub clock_jumps: Vec<ClockJump>,
    pub cache_cap: Option<usize>,
    pub fs: crate::fs::FsPlan,
    pub log: bool,
    /// remember where steps happened (calibration runs)
    pub record: bool,
}

#[derive(Debug, Clone, PartialEq)]
enum St { Run, Futex { addr: usize, deadline: Option<i64> }, Sleep(i64), Join(usize), Done }

struct Th { st: St, park: Box<AtomicU32>, timed_out: bool, rng: u64, pthread: libc::pthread_t, result: usize, fault_hits: u64 }

pub struct Sim {
    /// Threads take turns in using this through `sim()`, also while a method of it is under way in another
    /// one: no reference to it may be taken for unaliased.
    _pin: std::marker::PhantomPinned,
    pub cfg: Cfg,
    th: Vec<Th>,
    cur: usize,
    pub a: u64,
    pub b: u64,
    next_a: u64,
    last_switch_a: u64,
    pa: VecDeque<Preempt>,
    pb: VecDeque<Preempt>,
    pj: VecDeque<ClockJump>,
    forced_i: usize,
    pub now_ns: i64,          // realtime
    pub mono_ns: i64,
    pub stub_calls: [u64; 4],
    pub stub_fired: [u64; 4],
    pub switches: u64,
    pub preempts_fired: u64,
    pub jumps_fired: u64,
    pub sched_hash: u64,
    pub log_hash: u64,
    pub log: Vec<String>,
    pub fs: crate::fs::FsState,
    pub deadlock: Option<String>,
    running: usize,
    main_park: AtomicU32,
    pub clock_values: Vec<i64>,
    futex_blocks: u64,
    pub a_at_b: Vec<u64>,
    pub site_first: std::collections::BTreeMap<u32, Vec<u64>>,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
thread_local! {
    static TID: Cell<u32> = const { Cell::new(0) };      // 0: not a simulated thread, else tid + 1
    static INHOOK: Cell<bool> = const { Cell::new(false) };
}
const A_BUDGET: u64 = 400_000_000;
const A_FAIR: u64 = 2_000_000;

pub fn sim() -> &'static mut Sim { unsafe { &mut *SIM } }
pub fn has_sim() -> bool { unsafe { !SIM.is_null() } }
/// Is the calling thread a simulated one, outside the simulator's own code?
#[inline] pub fn active() -> bool { TID.with(|t| t.get()) != 0 && !INHOOK.with(|h| h.get()) }
pub fn tid() -> usize { TID.with(|t| t.get()) as usize - 1 }
pub struct Hook(bool, bool);
impl Hook { #[inline] pub fn new() -> Hook { let t = TRACK.with(|t| t.replace(false)); Hook(t, INHOOK.with(|h| h.replace(true))) } }
impl Drop for Hook { #[inline] fn drop(&mut self) { INHOOK.with(|h| h.set(self.1)); TRACK.with(|t| t.set(self.0)); } }

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 32; x = x.wrapping_mul(0xD6E8FEB86659FD93); x ^= x >> 29; x
}
pub fn mix_str(mut h: u64, s: &str) -> u64 { for b in s.bytes() { h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3); } h }
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub unsafe fn raw_syscall(n: c_long, a1: usize, a2: usize, a3: usize, a4: usize, a5: usize, a6: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => ret, in("rdi") a1, in("rsi") a2, in("rdx") a3,
        in("r10") a4, in("r8") a5, in("r9") a6, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub unsafe fn set_errno(e: c_int) { *libc::__errno_location() = e; }
pub unsafe fn ret(r: isize) -> isize { if r < 0 && r > -4096 { set_errno(-r as c_int); -1 } else { r } }
fn park_on(a: &AtomicU32) {
    while a.swap(0, Ordering::SeqCst) == 0 {
        unsafe { raw_syscall(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAIT as usize | 128, 0, 0, 0, 0); }
    }
}
fn unpark(a: &AtomicU32) {
    a.store(1, Ordering::SeqCst);
    unsafe { raw_syscall(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAKE as usize | 128, 1, 0, 0, 0); }
}

/// Something from which the process cannot continue (abort, double free ...): report and leave.
pub fn fatal(msg: &str) -> ! {
    crate::runner::child_died(msg);
}

impl Sim {
    pub fn event(&mut self, s: impl FnOnce() -> String, light: u64) {
        self.log_hash = mix(self.log_hash, light ^ ((self.cur as u64) << 56));
        if self.cfg.log { let l = format!("a={} b={} t{} {}", self.a, self.b, self.cur, s()); self.log.push(l); if self.log.len() > 200_000 { self.log.drain(..100_000); } }
    }
    fn runnable(&mut self, except: Option<usize>) -> Vec<usize> {
        let now = self.mono_ns;
        for t in self.th.iter_mut() {
            let due = match t.st { St::Futex { deadline: Some(d), .. } => d <= now, St::Sleep(d) => d <= now, _ => false };
            if due { if let St::Futex { .. } = t.st { t.timed_out = true; } t.st = St::Run; }
        }
        (0..self.th.len()).filter(|i| Some(*i) != except && self.th[*i].st == St::Run).collect()
    }
    fn update_next_a(&mut self) {
        if self.cfg.record { self.next_a = self.a + 1; return; }
        let p = self.pa.front().map(|p| p.at).unwrap_or(u64::MAX);
        self.next_a = p.min(self.last_switch_a + A_FAIR).min(A_BUDGET);
    }
    /// Hands over; from then on nothing of the simulator may be touched until this thread is woken again.
    fn switch(&mut self, to: usize, site: u64) -> bool {
        let me = self.cur;
        if to == me { return false; }
        self.switches += 1;
        self.last_switch_a = self.a;
        self.sched_hash = mix(mix(self.sched_hash, site), ((me as u64) << 32) | to as u64);
        self.event(|| format!("switch -> t{} (site {:x})", to, site), 0x5711 + to as u64);
        self.update_next_a();
        self.cur = to;
        unpark(&self.th[to].park);
        true
    }
    /// The current thread cannot go on: choose another one. None: nobody can run; Some(handed over).
    fn forced_switch(&mut self, site: u64) -> Option<bool> {
        loop {
            let me = self.cur;
            let r = self.runnable(None);
            if !r.is_empty() {
                if r.contains(&me) && self.th[me].st == St::Run && self.cfg.forced.get(self.forced_i).is_none() { return Some(false); }
                let order: Vec<usize> = { let mut o: Vec<usize> = r.clone(); let n = self.th.len(); o.sort_by_key(|i| (*i + n - me - 1) % n); o };
                let k = self.cfg.forced.get(self.forced_i).cloned().unwrap_or(0) as usize % order.len();
                self.forced_i += 1;
                let to = order[k];
                return Some(self.switch(to, site));
            }
            // nobody can run: let time pass to the earliest deadline
            let d = self.th.iter().filter_map(|t| match t.st { St::Futex { deadline, .. } => deadline, St::Sleep(d) => Some(d), _ => None }).min();
            match d {
                Some(d) => { let delta = (d - self.mono_ns).max(0); self.mono_ns += delta; self.now_ns += delta; }
                None => return None,
            }
        }
    }
    // What may hand over does not borrow the simulator: it is looked up again afterwards.
    #[inline(never)]
    fn block(st: St, site: u64) {
        let s = sim();
        let me = s.cur;
        s.th[me].st = st;
        s.futex_blocks += 1;
        let pk: *const AtomicU32 = &*s.th[me].park;
        let r = s.forced_switch(site);
        if r.is_none() {
            let states: Vec<String> = s.th.iter().enumerate().map(|(i, t)| format!("t{}:{:?}", i, t.st)).collect();
            s.deadlock = Some(format!("deadlock: no thread can run ({})", states.iter().map(|s| s.split("addr").next().unwrap_or("").to_string()).collect::<Vec<_>>().join(" ")));
            unpark(&s.main_park);
            loop { unsafe { raw_syscall(libc::SYS_pause, 0, 0, 0, 0, 0, 0); } }
        }
        if r == Some(true) { park_on(unsafe { &*pk }); }
    }
    #[inline(never)]
    fn preempt(p: Preempt, site: u64) {
        let s = sim();
        let me = s.cur;
        let r = s.runnable(Some(me));
        if r.is_empty() { return; }
        s.preempts_fired += 1;
        let to = r[p.pick as usize % r.len()];
        let pk: *const AtomicU32 = &*s.th[me].park;
        if s.switch(to, site) { park_on(unsafe { &*pk }); }
    }
    #[cold]
    #[inline(never)]
    fn a_slow(guard: u32) {
        {
            let s = sim();
            if s.cfg.record {
                let a = s.a;
                let v = s.site_first.entry(guard).or_default();
                if v.len() < 6 { v.push(a); } else { let k = mix(a, u64::from(guard)); if k % 16 == 0 { v[(k >> 8) as usize % 5 + 1] = a; } }
            }
            if s.a >= A_BUDGET { s.deadlock = Some("no progress: step budget exhausted (endless loop)".into()); unpark(&s.main_park); loop { unsafe { raw_syscall(libc::SYS_pause, 0, 0, 0, 0, 0, 0); } } }
        }
        loop {
            let s = sim();
            let Some(p) = s.pa.front().cloned() else { break };
            if p.at > s.a { break; }
            s.pa.pop_front();
            s.update_next_a();
            if p.at == s.a { Sim::preempt(p, 0xA000_0000 | u64::from(guard)); }
        }
        let s = sim();
        if s.a >= s.last_switch_a + A_FAIR {
            s.last_switch_a = s.a;
            s.update_next_a();
            Sim::preempt(Preempt { kind: StepKind::A, at: 0, pick: 0 }, 0xFA1);
        }
        sim().update_next_a();
    }
    #[inline(never)]
    pub fn b_step(site: u64) {
        let s = sim();
        s.b += 1;
        if s.cfg.record && s.a_at_b.len() < 50_000 { let a = s.a; s.a_at_b.push(a); }
        s.now_ns += 1000;
        s.mono_ns += 1000;
        s.log_hash = mix(s.log_hash, site ^ ((s.cur as u64) << 56));
        while let Some(j) = s.pj.front().cloned() {
            if j.at_b > s.b { break; }
            s.pj.pop_front();
            s.jumps_fired += 1;
            s.jump(j.delta_secs);
        }
        loop {
            let s = sim();
            let Some(p) = s.pb.front().cloned() else { break };
            if p.at > s.b { break; }
            s.pb.pop_front();
            if p.at == s.b { Sim::preempt(p, 0xB000_0000 | site); }
        }
    }
    pub fn jump(&mut self, delta: i64) {
        self.now_ns += delta * 1_000_000_000;
        let v = self.now_ns.div_euclid(1_000_000_000);
        self.clock_values.push(v);
        self.event(|| format!("clock jump {} s", delta), 0xC10C);
    }
    pub fn now_secs(&self) -> i64 { self.now_ns.div_euclid(1_000_000_000) }
    pub fn fault_hits(&self, t: usize) -> u64 { self.th[t].fault_hits }
    pub fn note_fault_hit(&mut self) { let c = self.cur; self.th[c].fault_hits += 1; }
    pub fn n_threads(&self) -> usize { self.th.len() }
}

/// A B-step seen from outside a hook (clients may call it between operations).
pub fn yield_now(site: u64) { if active() { let _h = Hook::new(); Sim::b_step(site); } }
/// Runs simulator-internal bookkeeping from a client thread.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R { if active() { let _h = Hook::new(); f() } else { f() } }

pub struct Report {
    pub a: u64, pub b: u64, pub switches: u64, pub preempts_fired: u64, pub sched_hash: u64, pub log_hash: u64,
    pub deadlock: Option<String>, pub log: Vec<String>, pub sim_ns: i64, pub stub_calls: [u64; 4], pub stub_fired: [u64; 4],
    pub jumps_fired: u64, pub fs: crate::fs::FsState, pub blocks: u64, pub threads: usize,
    pub clock_values: Vec<i64>, pub a_at_b: Vec<u64>, pub sites: Vec<Vec<u64>>,
}

type Body<'a> = Box<dyn FnOnce() + Send + 'a>;

/// Runs the bodies as simulated threads until all are done (or none can go on).
pub fn run<'a>(cfg: Cfg, bodies: Vec<Body<'a>>) -> Report {
    let n = bodies.len();
    let mut pa: Vec<Preempt> = cfg.preempts.iter().cloned().filter(|p| p.kind == StepKind::A).collect();
    let mut pb: Vec<Preempt> = cfg.preempts.iter().cloned().filter(|p| p.kind == StepKind::B).collect();
    pa.sort_by_key(|p| p.at); pb.sort_by_key(|p| p.at);
    let mut pj = cfg.clock_jumps.clone();
    pj.sort_by_key(|j| j.at_b);
    let start = cfg.now_secs * 1_000_000_000;
    let mut s = Box::new(Sim {
        _pin: std::marker::PhantomPinned,
        th: (0..n).map(|i| new_th(cfg.hash_seed, i)).collect(),
        cur: 0, a: 0, b: 0, next_a: 0, last_switch_a: 0, pa: pa.into(), pb: pb.into(), pj: pj.into(), forced_i: 0,
        now_ns: start, mono_ns: 1_000_000_000_000, stub_calls: [0; 4], stub_fired: [0; 4], switches: 0, preempts_fired: 0, jumps_fired: 0,
        sched_hash: 1, log_hash: 1, log: vec![], fs: crate::fs::FsState::new(cfg.fs.clone()), deadlock: None, running: n,
        main_park: AtomicU32::new(0), clock_values: vec![cfg.now_secs], futex_blocks: 0, a_at_b: vec![], site_first: Default::default(), cfg,
    });
    s.update_next_a();
    let mono0 = s.mono_ns;
    unsafe { SIM = Box::into_raw(s); }
    let mut handles = vec![];
    for (i, body) in bodies.into_iter().enumerate() {
        let body: Body<'static> = unsafe { std::mem::transmute(body) };
        let park = park_of(i);
        handles.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || { enter(i, park); if std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).is_err() { crate::runner::body_panicked(); } leave(); }).expect("spawn"));
    }
    if n > 0 { unpark(&sim().th[0].park); park_on(&sim().main_park); }
    let dead = sim().deadlock.is_some();
    if !dead { for h in handles { let _ = h.join(); } } else { std::mem::forget(handles); }
    let s = unsafe { &mut *SIM };
    let rep = Report {
        a: s.a, b: s.b, switches: s.switches, preempts_fired: s.preempts_fired, sched_hash: s.sched_hash, log_hash: s.log_hash,
        deadlock: s.deadlock.clone(), log: std::mem::take(&mut s.log), sim_ns: s.mono_ns - mono0, stub_calls: s.stub_calls,
        stub_fired: s.stub_fired, jumps_fired: s.jumps_fired, fs: std::mem::take(&mut s.fs), blocks: s.futex_blocks, threads: s.th.len(),
        clock_values: std::mem::take(&mut s.clock_values), a_at_b: std::mem::take(&mut s.a_at_b), sites: std::mem::take(&mut s.site_first).into_values().collect(),
    };
    if !dead { unsafe { let p = SIM; SIM = std::ptr::null_mut(); drop(Box::from_raw(p)); } }
    rep
}
fn new_th(seed: u64, i: usize) -> Th {
    Th { st: St::Run, park: Box::new(AtomicU32::new(0)), timed_out: false, rng: mix(seed, 77 + i as u64), pthread: 0, result: 0, fault_hits: 0 }
}
fn park_of(i: usize) -> usize { &*sim().th[i].park as *const AtomicU32 as usize }
/// Up to here the new thread runs beside the others: it must not look at the simulator before it is woken.
fn enter(i: usize, park: usize) {
    park_on(unsafe { &*(park as *const AtomicU32) });
    TID.with(|t| t.set(i as u32 + 1));
}
fn leave() {
    TRACK.with(|t| t.set(false));
    let s = sim();
    let me = s.cur;
    TID.with(|t| t.set(0));
    s.th[me].st = St::Done;
    s.running -= 1;
    for t in s.th.iter_mut() { if t.st == St::Join(me) { t.st = St::Run; } }
    s.event(|| "thread ends".into(), 0xE2D);
    if s.running == 0 { unpark(&s.main_park); return; }
    if s.forced_switch(0xE2D).is_none() {
        s.deadlock = Some("deadlock: the remaining threads wait forever".into());
        unpark(&s.main_park);
    }
}

// ---- hooks called by the code under test and its collaborators ----
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    static mut N: u32 = 0;
    unsafe { if start == stop || *start != 0 { return; } while start < stop { N += 1; *start = N; start = start.add(1); } }
}
#[no_mangle] pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !active() { return; }
    let s = sim();
    s.a += 1;
    if s.a >= s.next_a { let _h = Hook::new(); Sim::a_slow(unsafe { *g }); }
}
#[no_mangle] pub extern "C" fn sim_stub_point(kind: u32, tag: *const u8, len: usize) -> u32 {
    if !active() { return 0; }
    let _h = Hook::new();
    let s = sim();
    let name = || String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(tag, len) }).into_owned();
    let mut inject = 0;
    if kind >= 1 && kind <= 3 {
        let k = kind as usize;
        let nth = s.stub_calls[k];
        s.stub_calls[k] += 1;
        if s.cfg.stub_faults.iter().any(|f| f.kind == kind && f.nth == nth) {
            inject = 1;
            s.stub_fired[k] += 1;
            s.note_fault_hit();
        }
    }
    s.event(|| format!("stub {} {:?}{}", kind, name(), if inject == 1 { " -> FAULT" } else { "" }), 0x57B0 + u64::from(kind) + u64::from(inject) * 16);
    Sim::b_step(0x10 + u64::from(kind));
    inject
}
#[no_mangle] pub extern "C" fn sim_now_secs() -> i64 {
    if has_sim() && TID.with(|t| t.get()) != 0 { sim().now_secs() } else { crate::runner::default_now() }
}
#[no_mangle] pub extern "C" fn sim_cache_capacity(requested: usize) -> usize {
    if has_sim() && TID.with(|t| t.get()) != 0 { sim().cfg.cache_cap.map(|c| c.min(requested)).unwrap_or(requested) } else { requested }
}
#[no_mangle] pub unsafe extern "C" fn abort() -> ! { fatal("process aborted"); }

// ---- threads ----
type Start = extern "C" fn(*mut c_void) -> *mut c_void;
unsafe fn real<T: Copy>(cell: &'static std::sync::atomic::AtomicUsize, name: &[u8]) -> T {
    let mut p = cell.load(Ordering::Relaxed);
    if p == 0 { p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const _) as usize; cell.store(p, Ordering::Relaxed); }
    std::mem::transmute_copy(&p)
}
macro_rules! real_fn { ($name:expr, $t:ty) => {{ static C: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0); $crate::rt::real_dl::<$t>(&C, concat!($name, "\0").as_bytes()) }}; }
pub(crate) use real_fn;
pub(crate) unsafe fn real_dl<T: Copy>(cell: &'static std::sync::atomic::AtomicUsize, name: &[u8]) -> T { real(cell, name) }

struct Tramp { start: Start, arg: usize, tid: usize, park: usize }
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    enter(t.tid, t.park);
    let r = (t.start)(t.arg as *mut c_void);
    { let _h = Hook::new(); sim().th[t.tid].result = r as usize; drop(t); }
    leave();
    r
}
#[no_mangle] pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const c_void, start: Start, arg: *mut c_void) -> c_int {
    let f: extern "C" fn(*mut libc::pthread_t, *const c_void, Start, *mut c_void) -> c_int = real_fn!("pthread_create", _);
    if !active() { return f(th, attr, start, arg); }
    let _h = Hook::new();
    let s = sim();
    let id = s.th.len();
    if id >= 64 { return libc::EAGAIN; }
    let seed = s.cfg.hash_seed;
    s.th.push(new_th(seed, id));
    s.running += 1;
    let r = f(th, attr, tramp, Box::into_raw(Box::new(Tramp { start, arg: arg as usize, tid: id, park: park_of(id) })) as *mut c_void);
    if r != 0 { s.th.pop(); s.running -= 1; return r; }
    s.th[id].pthread = *th;
    s.event(|| format!("spawn t{}", id), 0x59A);
    Sim::b_step(0x20);
    0
}
#[no_mangle] pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, out: *mut *mut c_void) -> c_int {
    let f: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = real_fn!("pthread_join", _);
    if active() {
        let _h = Hook::new();
        let s = sim();
        if let Some(t) = s.th.iter().position(|t| t.pthread == th) {
            if s.th[t].st != St::Done { Sim::block(St::Join(t), 0x21); }
        }
    }
    f(th, out)
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() { let _h = Hook::new(); Sim::b_step(0x22); Sim::preempt(Preempt { kind: StepKind::B, at: 0, pick: 0 }, 0x22); return 0; }
    raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

// ---- futex ----
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a1: usize, a2: usize, a3: usize, a4: usize, a5: usize, a6: usize) -> c_long {
    if !active() { return ret(raw_syscall(n, a1, a2, a3, a4, a5, a6)) as c_long; }
    if n == libc::SYS_futex {
        let _h = Hook::new();
        let s = sim();
        let op = a2 as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        match op {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                s.event(|| "futex wait".into(), 0xF0);
                Sim::b_step(0x30);
                if (*(a1 as *const AtomicU32)).load(Ordering::SeqCst) != a3 as u32 { set_errno(libc::EAGAIN); return -1; }
                let deadline = if a4 == 0 { None } else {
                    let ts = &*(a4 as *const libc::timespec);
                    let v = ts.tv_sec * 1_000_000_000 + ts.tv_nsec;
                    Some(if op == libc::FUTEX_WAIT { s.mono_ns + v } else if a2 as c_int & libc::FUTEX_CLOCK_REALTIME != 0 { v - s.now_ns + s.mono_ns } else { v })
                };
                let me = s.cur;
                Sim::block(St::Futex { addr: a1, deadline }, 0x30);
                if std::mem::replace(&mut s.th[me].timed_out, false) { set_errno(libc::ETIMEDOUT); return -1; }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                let mut woken = 0;
                for t in s.th.iter_mut() {
                    if woken >= a3 { break; }
                    if let St::Futex { addr, .. } = t.st { if addr == a1 { t.st = St::Run; woken += 1; } }
                }
                s.event(|| format!("futex wake {}", woken), 0xF1);
                Sim::b_step(0x31);
                return woken as c_long;
            }
            _ => return ret(raw_syscall(n, a1, a2, a3, a4, a5, a6)) as c_long,
        }
    }
    if n == libc::SYS_getrandom { return getrandom(a1 as *mut c_void, a2, a3 as u32) as c_long; }
    ret(raw_syscall(n, a1, a2, a3, a4, a5, a6)) as c_long
}

// ---- randomness ----
static MAIN_RNG: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x1234_5678);
pub fn seed_main_rng(s: u64) { MAIN_RNG.store(s, Ordering::SeqCst); }
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    let mut st;
    if TID.with(|t| t.get()) != 0 { st = sim().th[tid()].rng; } else { st = MAIN_RNG.load(Ordering::SeqCst); }
    let mut i = 0;
    while i < len {
        let v = splitmix(&mut st).to_le_bytes();
        let n = (len - i).min(8);
        std::ptr::copy_nonoverlapping(v.as_ptr(), (buf as *mut u8).add(i), n);
        i += n;
    }
    if TID.with(|t| t.get()) != 0 { sim().th[tid()].rng = st; } else { MAIN_RNG.store(st, Ordering::SeqCst); }
    len as isize
}
#[no_mangle] pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: usize) -> c_int { getrandom(buf, len, 0); 0 }

// ---- time ----
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !active() { return ret(raw_syscall(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int; }
    let _h = Hook::new();
    let s = sim();
    Sim::b_step(0x40);
    let v = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE { s.now_ns } else { s.mono_ns };
    (*ts).tv_sec = v.div_euclid(1_000_000_000);
    (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
    0
}
#[no_mangle] pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec; (*tv).tv_usec = ts.tv_nsec / 1000;
    0
}
#[no_mangle] pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() { *t = ts.tv_sec; }
    ts.tv_sec
}
unsafe fn sleep_ns(ns: i64) { let _h = Hook::new(); let s = sim(); s.event(|| format!("sleep {} ns", ns), 0x51EE9); let d = s.mono_ns + ns; Sim::block(St::Sleep(d), 0x41); }
#[no_mangle] pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() { return ret(raw_syscall(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int; }
    sleep_ns((*req).tv_sec * 1_000_000_000 + (*req).tv_nsec);
    0
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !active() { return -raw_syscall(libc::SYS_clock_nanosleep, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int; }
    let v = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
    let now = if id == libc::CLOCK_REALTIME { sim().now_ns } else { sim().mono_ns };
    sleep_ns(if flags & libc::TIMER_ABSTIME != 0 { v - now } else { v });
    0
}
#[no_mangle] pub unsafe extern "C" fn usleep(us: u32) -> c_int { let ts = libc::timespec { tv_sec: i64::from(us) / 1_000_000, tv_nsec: i64::from(us) % 1_000_000 * 1000 }; nanosleep(&ts, std::ptr::null_mut()) }
