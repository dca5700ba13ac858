//! Seeded search: base situations, plans on each, judging, minimising, replaying, evidence.
use crate::ops::Op;
use crate::props::{self, Prop, V};
use crate::rng::Rng;
use crate::rt::{mix, mix_str};
use crate::runner::{in_child, Ctx, Mode, Raw, Spec};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::sync::mpsc;
use std::time::{Duration, Instant};

const RECHECK_EVERY: u64 = 16;

#[derive(Debug, Clone, Default, Serialize, Deserialize)]
#[serde(default)]
struct BaseOut {
    seed: u64,
    plans: u64,
    refs: u64,
    nontrivial: Vec<u64>,
    schedules: Vec<u64>,
    a: u64, b: u64, switches: u64, preempts: u64, blocks: u64,
    sim_ns: i64,
    clients: u64, calls: u64,
    faults: BTreeMap<String, u64>,
    rechecked: u64,
    nondeterministic: Vec<String>,
    harness: Vec<String>,
    ops: BTreeMap<String, u64>,
    violation: Option<(Spec, V)>,
    sample: Option<Value>,
}
fn op_name(o: &Op) -> String { serde_json::to_value(o).ok().and_then(|v| v["op"].as_str().map(|s| s.to_string())).unwrap_or_default() }
fn signature(spec: &Spec, r: &Raw) -> u64 {
    let mut h = mix(spec.seed, r.main().sched_hash);
    for p in &r.phases { h = mix(h, p.sched_hash); for (k, n) in &p.fired { h = mix(mix_str(h, k), *n); } for k in p.stub_fired { h = mix(h, k); } h = mix(h, p.jumps_fired); for x in &p.fired_at { h = mix_str(h, &x.0); } for rec in p.recs.iter().flatten() { h = mix_str(h, &rec.r); } }
    h = mix_str(h, &serde_json::to_string(&(&spec.pre, &spec.threads, &spec.jumps, &spec.hash_seed)).unwrap_or_default());
    h
}
fn account(o: &mut BaseOut, p: &Prop, spec: &Spec, r: &Raw) {
    o.plans += 1;
    if let Some(h) = &r.harness { o.harness.push(h.clone()); return; }
    o.schedules.push(mix(spec.seed, r.main().sched_hash));
    if r.phases.len() > 1 && (p.nontrivial)(r) { o.nontrivial.push(signature(spec, r)); }
    for ph in &r.phases {
        o.a += ph.a; o.b += ph.b; o.switches += ph.switches; o.preempts += ph.preempts; o.blocks += ph.blocks; o.sim_ns += ph.sim_ns;
        for (k, n) in &ph.fired { *o.faults.entry(format!("file {}", k)).or_insert(0) += n; }
        for (i, k) in ["", "builtin parser call failed", "gazetteer parser call failed", "sequence tagger call failed"].iter().enumerate() { if ph.stub_fired[i] > 0 { *o.faults.entry(k.to_string()).or_insert(0) += ph.stub_fired[i]; } }
        if ph.jumps_fired > 0 { *o.faults.entry("clock jump".into()).or_insert(0) += ph.jumps_fired; }
        o.calls += ph.recs.iter().map(|v| v.len() as u64).sum::<u64>();
    }
    if r.reader_failures > 0 { *o.faults.entry("archive reader failed".into()).or_insert(0) += r.reader_failures; }
    for op in spec.all_ops() { *o.ops.entry(op_name(op)).or_insert(0) += 1; match op { Op::Jump { .. } => *o.faults.entry("clock jump between calls".into()).or_insert(0) += 1, Op::Damage { d } => { let k = serde_json::to_value(d).ok().and_then(|v| v["damage"].as_str().map(|s| s.to_string())).unwrap_or_default(); *o.faults.entry(format!("stored file damaged: {}", k)).or_insert(0) += 1; } _ => {} } }
    o.clients += spec.threads.len() as u64;
}
fn gen(p: &Prop, seed: u64) -> (Spec, Rng) {
    let mut r = Rng::new(mix_str(seed, p.id));
    let s = (p.gen)(&mut r, seed);
    (s, r)
}
fn base_run(p: &Prop, seed: u64, factor: usize) -> BaseOut {
    let mut o = BaseOut { seed, ..Default::default() };
    let (spec, mut r) = gen(p, seed);
    let mut ctx = Ctx::new(&spec);
    if let Some(e) = ctx.setup_failed.clone() { o.violation = Some((spec, V { class: "load".into(), detail: format!("a valid model or handle could not be set up: {}", e) })); return o; }
    let raw = ctx.run(&spec, Mode { record: true, log: false });
    account(&mut o, p, &spec, &raw);
    if let Some(x) = props::judge(p, &spec, &raw, &mut ctx) { o.violation = Some((spec, x)); return o; }
    let calib = match raw.calib.clone() { Some(c) => c, None => { o.harness.push("no calibration".into()); return o; } };
    let plans = (p.plans)(&spec, &calib, &mut r, p.n * factor);
    for (i, plan) in plans.iter().enumerate() {
        let raw = ctx.run(plan, Mode::default());
        account(&mut o, p, plan, &raw);
        if let Some(x) = props::judge(p, plan, &raw, &mut ctx) { o.violation = Some((plan.clone(), x)); break; }
        if (seed + i as u64) % RECHECK_EVERY == 0 {
            let again = ctx.run(plan, Mode::default());
            o.rechecked += 1;
            if again.log_hash() != raw.log_hash() && again.harness.is_none() && raw.harness.is_none() { o.nondeterministic.push(format!("{}: plan {} of seed {}", p.id, i, seed)); }
        }
        if i == 0 && seed % 5 == 0 { o.sample = Some(json!({"situation": plan, "first_answers": raw.main().recs.iter().map(|v| v.iter().take(2).map(|r| r.r.chars().take(160).collect::<String>()).collect::<Vec<_>>()).collect::<Vec<_>>()})); }
    }
    o.refs = ctx.runs;
    o
}
pub fn worker(id: &str, seed: u64, w: u64, n: u64, params: f64) -> i32 {
    // params: seconds, negative for the deep tier
    let factor = if params < 0.0 { 2 } else { 1 };
    let secs = params.abs();
    let p = props::by_id(id);
    let start = Instant::now();
    let mut i = 0u64;
    while start.elapsed().as_secs_f64() < secs {
        let s = (mix(mix_str(seed, id), i * n + w) >> 14) & ((1 << 48) - 1);
        i += 1;
        let out = in_child(600, || serde_json::to_vec(&base_run(&p, s, factor)).unwrap());
        let line = match out {
            Ok(b) => String::from_utf8_lossy(&b).into_owned(),
            Err(e) => serde_json::to_string(&BaseOut { seed: s, harness: vec![e], ..Default::default() }).unwrap(),
        };
        let mut so = std::io::stdout().lock();
        if writeln!(so, "{}", line.replace('\n', " ")).and_then(|_| so.flush()).is_err() { return 0; }
    }
    0
}

/// One run of a spec in a fresh world, with its judgement.
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
#[serde(default)]
struct Eval { v: Option<V>, log_hash: u64, log: Vec<String>, answers: Vec<Vec<Vec<String>>>, harness: Option<String> }
fn eval(spec: &Spec, log: bool) -> Eval {
    let p = props::by_id(&spec.prop);
    let out = in_child(300, || {
        let mut ctx = Ctx::new(spec);
        if let Some(e) = ctx.setup_failed.clone() { return serde_json::to_vec(&Eval { v: Some(V { class: "load".into(), detail: format!("a valid model or handle could not be set up: {}", e) }), ..Default::default() }).unwrap(); }
        let raw = ctx.run(spec, Mode { record: false, log });
        let v = props::judge(&p, spec, &raw, &mut ctx);
        let mut lines = vec![];
        if log { for (i, ph) in raw.phases.iter().enumerate() { lines.push(format!("--- phase {}", i)); let n = ph.log.len(); lines.extend(ph.log.iter().skip(n.saturating_sub(3000)).cloned()); } }
        serde_json::to_vec(&Eval { v, log_hash: raw.log_hash(), log: lines, answers: raw.phases.iter().map(|p| p.recs.iter().map(|l| l.iter().map(|r| r.r.clone()).collect()).collect()).collect(), harness: raw.harness.clone() }).unwrap()
    });
    match out { Ok(b) => serde_json::from_slice(&b).unwrap_or_else(|e| Eval { harness: Some(e.to_string()), ..Default::default() }), Err(e) => Eval { harness: Some(e), ..Default::default() } }
}
/// The same in a new process: what the code under test draws from process-wide counters (thread numbers) then
/// is as it was in the worker and will be in a replay.
fn eval_fresh(spec: &Spec, log: bool) -> Eval {
    let bad = |e: String| Eval { harness: Some(e), ..Default::default() };
    let mut k = match crate::pyhost::this_program().arg("eval").arg(if log { "log" } else { "" }).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() { Ok(k) => k, Err(e) => return bad(e.to_string()) };
    let input = serde_json::to_vec(spec).unwrap();
    { let mut i = k.stdin.take().unwrap(); if i.write_all(&input).is_err() { return bad("eval: pipe".into()); } }
    match k.wait_with_output() { Ok(o) => serde_json::from_slice(&o.stdout).unwrap_or_else(|e| bad(e.to_string())), Err(e) => bad(e.to_string()) }
}
pub fn eval_command(log: bool) -> i32 {
    let mut b = vec![];
    if std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).is_err() { return 2; }
    let spec: Spec = match serde_json::from_slice(&b) { Ok(s) => s, Err(_) => return 2 };
    let e = eval(&spec, log);
    let _ = std::io::stdout().write_all(&serde_json::to_vec(&e).unwrap());
    let _ = std::io::stdout().flush();
    0
}
fn same(spec: &Spec, class: &str) -> Option<V> { eval_fresh(spec, false).v.filter(|v| v.class == class) }

fn smaller(s: &Spec) -> Vec<Spec> {
    let mut out: Vec<Spec> = vec![];
    let growth = s.knob("growth") != 0;
    for t in 0..s.threads.len() { if s.threads.len() > 1 && !matches!(s.prop.as_str(), "C19" | "C16") || s.threads.len() > 2 { let mut x = s.clone(); x.threads.remove(t); for f in &mut x.fs_faults { if let Some(k) = f.tid { if k > t { f.tid = Some(k - 1); } } } out.push(x); } }
    macro_rules! drop_each { ($f:ident) => { if s.$f.len() > 1 { let mut x = s.clone(); x.$f.clear(); out.push(x); } for i in 0..s.$f.len() { let mut x = s.clone(); x.$f.remove(i); out.push(x); } } }
    drop_each!(preempts); drop_each!(forced); drop_each!(stub_faults); drop_each!(jumps); drop_each!(fs_faults);
    if !growth { for t in 0..s.threads.len() { for i in 0..s.threads[t].len() {
        if s.threads[t].len() == 1 { continue; }
        let mut x = s.clone(); x.threads[t].remove(i); out.push(x);
    } } }
    if !matches!(s.prop.as_str(), "C10" | "C11" | "C06" | "C16" | "C17" | "C19" | "C09") { drop_each!(post); drop_each!(pre); }
    else { for i in 0..s.pre.len() { if matches!(s.pre[i], Op::Inject { .. }) { let mut x = s.clone(); x.pre.remove(i); out.push(x); } } if s.prop == "C19" { for i in 0..s.post.len() { if matches!(s.post[i], Op::Inject { .. }) { let mut x = s.clone(); x.post.remove(i); out.push(x); } } } }
    for t in 0..s.threads.len() { for i in 0..s.threads[t].len() { for o in s.threads[t][i].simpler() {
        let mut x = s.clone();
        // the same operation elsewhere is simplified along with it
        for l in x.threads.iter_mut().chain(std::iter::once(&mut x.post)) { for y in l.iter_mut() { if *y == s.threads[t][i] { *y = o.clone(); } } }
        out.push(x);
        if growth { break; }
    } if growth { break; } } }
    for m in s.model.simpler() { let mut x = s.clone(); x.model = m; out.push(x); }
    for (i, o) in s.others.iter().enumerate() { if *o != s.model { let mut x = s.clone(); x.others[i] = s.model.clone(); out.push(x); } for m in o.simpler() { let mut x = s.clone(); x.others[i] = m; out.push(x); } }
    if s.knob("power") != 0 { let mut x = s.clone(); x.knobs.remove("power"); out.push(x); }
    for i in 0..s.fs_faults.len() { if s.fs_faults[i].sticky { let mut x = s.clone(); x.fs_faults[i].sticky = false; out.push(x); } }
    if s.cap.is_some() && !growth { let mut x = s.clone(); x.cap = None; out.push(x); }
    out
}
fn minimise(spec: Spec, class: &str, budget: Duration) -> (Spec, u64) {
    let start = Instant::now();
    let mut cur = spec;
    let mut tried = 0;
    let mut i = 0;
    let mut cand = smaller(&cur);
    while i < cand.len() && start.elapsed() < budget {
        tried += 1;
        if same(&cand[i], class).is_some() { cur = cand[i].clone(); let n = smaller(&cur); i = if i < n.len() { i } else { 0 }; cand = n; if cand.is_empty() { break; } }
        else { i += 1; if i == cand.len() { break; } }
    }
    (cur, tried)
}

fn verif_dir() -> PathBuf { std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif")) }
/// Lines `KNOWN-FINDING: property=<id> class=<class> match=<text> :: <what fails>`; only an exact match of
/// class and text suppresses a report.
fn known(id: &str) -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("KNOWN-FINDING: property=")?;
        let (pid, rest) = l.split_once(" class=")?;
        if pid != id { return None; }
        let (class, rest) = rest.split_once(" match=")?;
        let (m, what) = rest.split_once(" :: ")?;
        Some((class.to_string(), m.to_string(), what.to_string()))
    }).collect()
}

pub fn check(id: &str, args: &[String]) -> i32 {
    if id == "C41" && !crate::pyhost::hosted() { eprintln!("C41 runs inside py/host.py"); return 2; }
    let start = Instant::now();
    let tier = if args.iter().any(|a| a == "thorough") || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) && !args.iter().any(|a| a == "quick") { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let secs: f64 = args.iter().filter_map(|a| a.strip_prefix("--seconds=").and_then(|s| s.parse().ok())).next().unwrap_or(if tier == "quick" { 45.0 } else { 540.0 });
    let p = props::by_id(id);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16) as u64;
    let (tx, rx) = mpsc::channel::<String>();
    let mut kids = vec![];
    for w in 0..workers {
        let param = if tier == "thorough" { -secs } else { secs };
        let mut k = crate::pyhost::this_program().args(["worker", id, &seed.to_string(), &w.to_string(), &workers.to_string(), &param.to_string()]).stdout(Stdio::piped()).stdin(Stdio::null()).spawn().expect("worker");
        let out = k.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || { for l in BufReader::new(out).lines().map_while(Result::ok) { if tx.send(l).is_err() { break; } } });
        kids.push(k);
    }
    drop(tx);
    let listed = known(id);
    let mut hit: BTreeSet<usize> = BTreeSet::new();
    let mut tot = BaseOut::default();
    let (mut nontrivial, mut schedules): (BTreeSet<u64>, BTreeSet<u64>) = Default::default();
    let mut bases = 0u64;
    let mut samples = vec![];
    let mut unreproduced: Vec<Value> = vec![];
    let mut found: Option<(Spec, V)> = None;
    let mut violations = 0;
    let hard_end = Duration::from_secs_f64(secs + 240.0);
    loop {
        let left = hard_end.checked_sub(start.elapsed()).unwrap_or(Duration::from_secs(0));
        let line = match rx.recv_timeout(left) { Ok(l) => l, Err(_) => break };
        let o: BaseOut = match serde_json::from_str(&line) { Ok(o) => o, Err(e) => { tot.harness.push(format!("unreadable worker line: {} {}", e, line.chars().take(200).collect::<String>())); continue; } };
        bases += 1;
        nontrivial.extend(&o.nontrivial); schedules.extend(&o.schedules);
        tot.plans += o.plans; tot.refs += o.refs; tot.a += o.a; tot.b += o.b; tot.switches += o.switches; tot.preempts += o.preempts; tot.blocks += o.blocks; tot.sim_ns += o.sim_ns; tot.clients += o.clients; tot.calls += o.calls; tot.rechecked += o.rechecked;
        for (k, n) in o.faults { *tot.faults.entry(k).or_insert(0) += n; }
        for (k, n) in o.ops { *tot.ops.entry(k).or_insert(0) += n; }
        tot.nondeterministic.extend(o.nondeterministic); tot.harness.extend(o.harness);
        if samples.len() < 3 { if let Some(s) = o.sample { samples.push(s); } }
        if let Some((spec, v)) = o.violation {
            if let Some(k) = listed.iter().position(|l| l.0 == v.class && v.detail.contains(&l.1)) { hit.insert(k); continue; }
            // it must come back, identically, in fresh processes
            let (e1, e2) = (eval_fresh(&spec, false), eval_fresh(&spec, false));
            let ok = |e: &Eval| e.v.as_ref().map(|x| x.class == v.class).unwrap_or(false);
            if ok(&e1) && ok(&e2) { violations += 1; found = Some((spec, v)); break; }
            if let (Some(h), true) = (&e1.harness, e2.harness.is_some()) { tot.harness.push(format!("{} could not be repeated: {}", spec.seed, h)); }
            unreproduced.push(json!({"seed": spec.seed, "class": v.class, "detail": v.detail.chars().take(500).collect::<String>(), "again": [e1.v.map(|x| x.class), e2.v.map(|x| x.class)], "harness": e1.harness}));
        }
    }
    for k in &mut kids { let _ = k.kill(); }
    for k in &mut kids { let _ = k.wait(); }
    let explored = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut tried = 0;
    if let Some((spec, v)) = &found {
        let budget = if secs < 30.0 { 5 } else if tier == "quick" { 60 } else { 180 };
        let (small, n) = minimise(spec.clone(), &v.class, Duration::from_secs(budget));
        tried = n;
        let (small, e) = { let e = eval_fresh(&small, true); if e.v.as_ref().map(|x| x.class == v.class).unwrap_or(false) { (small, e) } else { (spec.clone(), eval_fresh(spec, true)) } };
        let vv = e.v.clone().unwrap_or_else(|| v.clone());
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", id, small.seed));
        let _ = std::fs::write(&path, serde_json::to_vec_pretty(&json!({"property": id, "seed": small.seed, "class": vv.class, "detail": vv.detail, "log_hash": e.log_hash, "spec": small, "answers": e.answers, "trace": e.log})).unwrap());
        println!("violated: {} ({}): {}", id, vv.class, vv.detail.chars().take(1500).collect::<String>());
        println!("minimised from size {} to {} in {} runs; repeat it with: {} replay {}", spec.size(), small.size(), n, crate::pyhost::this_program_text(), path.display());
        println!("VIOLATION property={} replay={}", id, path.display());
        code = 1;
    }
    for (i, l) in listed.iter().enumerate() { println!("KNOWN-FINDING: property={} {}{}", id, l.2, if hit.contains(&i) { "" } else { " (not met in this run)" }); }
    let sane = code == 1 || tot.plans > 0 && (tot.harness.len() as u64) * 20 <= tot.plans.max(20) && (tot.nondeterministic.len() as u64) * 10 <= tot.rechecked.max(10);
    let hours = explored / 3600.0;
    let cov = json!({
        "evaluations": tot.plans, "distinct_nontrivial": nontrivial.len(), "rule": format!("A case is one simulated run: a base situation (model, clients, operations, histories) drawn from a seed, with a schedule and fault plan on it. Non-trivial: {}. Distinct: by the hash of schedule (switch points), faults met, inputs and all answers.", p.rule),
        "samples": if samples.is_empty() { vec![json!("no sample in this run")] } else { samples },
        "base_situations": bases, "client_operations": tot.calls, "clients": tot.clients, "operations_by_kind": tot.ops,
        "runs_per_hour": (tot.plans as f64 / hours) as u64, "seeds_per_hour": (bases as f64 / hours) as u64, "child_runs_including_references": tot.refs,
        "simulated_seconds": tot.sim_ns as f64 / 1e9, "basic_block_steps": tot.a, "system_and_collaborator_steps": tot.b, "thread_switches": tot.switches, "planned_preemptions_taken": tot.preempts, "blocked_on_lock": tot.blocks,
        "faults_injected": tot.faults, "distinct_schedules": schedules.len(), "schedule_measure": "distinct sequences of (code position, from, to) of thread switches per base situation",
        "determinism_rechecks": tot.rechecked, "determinism_mismatches": tot.nondeterministic, "harness_errors": tot.harness.iter().take(10).collect::<Vec<_>>(), "unreproduced": unreproduced,
        "minimiser_runs": tried,
        "real_code": [if crate::pyhost::hosted() { "the Python wrapper (/repo/platforms/python: snips_nlu_rust and ffi/src), CPython and ctypes" } else { "snips-nlu-lib alone where no C call is made" }, "snips-nlu-lib (/repo/src)", "snips-nlu-ffi (/repo/ffi/src)", "Rust standard library, serde_json, ndarray, regex, tempfile, failure (crates.io)", "Linux kernel file system below the simulated system calls"],
        "stubs": ["snips-nlu-ontology, snips-nlu-parsers, gazetteer-entity-parser, crfsuite, snips-nlu-utils, ffi-utils, snips-nlu-ontology-ffi-macros (re-implemented: not available offline)", "itertools 0.8, base64 0.10, lru-cache, csv, zip (small re-implementations of the used API)"],
    });
    let ev = json!({"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": start.elapsed().as_secs_f64(), "violations": violations,
        "assumptions": ["the stand-ins for the crates that cannot be fetched behave like the originals at their interface", "schedules are sequentially consistent: weak memory effects are not simulated", "seeded search, not exhaustive"]});
    let evd = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if std::fs::write(evd.join(format!("{}.json", id)), serde_json::to_vec_pretty(&ev).unwrap()).is_err() { eprintln!("cannot write evidence"); return 2; }
    println!("{}: {} runs over {} situations in {:.0} s, {} distinct non-trivial, {} schedules, {} rechecked, {} harness errors, {} unreproduced", id, tot.plans, bases, explored, nontrivial.len(), schedules.len(), tot.rechecked, tot.harness.len(), unreproduced.len());
    if !tot.nondeterministic.is_empty() { eprintln!("not deterministic: {:?}", tot.nondeterministic.iter().take(5).collect::<Vec<_>>()); }
    if !sane { eprintln!("the simulator did not work properly: {:?}", tot.harness.iter().take(5).collect::<Vec<_>>()); return 2; }
    code
}
pub fn replay(file: &str) -> i32 {
    let v: Value = match std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()) { Some(v) => v, None => { eprintln!("cannot read {}", file); return 2; } };
    let spec: Spec = match serde_json::from_value(v["spec"].clone()) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2; } };
    let e = eval(&spec, true);
    for l in &e.log { println!("{}", l); }
    for (i, p) in e.answers.iter().enumerate() { for (t, l) in p.iter().enumerate() { for (k, r) in l.iter().enumerate() { println!("phase {} client {} operation {}: {}", i, t, k, r); } } }
    if let Some(h) = &e.harness { println!("harness: {}", h); }
    match e.v {
        Some(x) => { println!("reproduced: {} ({}) {}{}", spec.prop, x.class, x.detail, if v["log_hash"] == json!(e.log_hash) { " [identical history]" } else { "" }); println!("VIOLATION property={} replay={}", spec.prop, file); 1 }
        None => { println!("no violation"); 0 }
    }
}
pub fn one(id: &str, seed: u64) -> i32 {
    let p = props::by_id(id);
    let out = in_child(600, || {
        let (spec, mut r) = gen(&p, seed);
        println!("{}", serde_json::to_string(&spec).unwrap());
        let mut ctx = Ctx::new(&spec);
        println!("setup: {:?}", ctx.setup_failed);
        let raw = ctx.run(&spec, Mode { record: true, log: false });
        println!("died {:?} harness {:?} setup {:?}", raw.died, raw.harness, raw.setup_failed);
        for (i, ph) in raw.phases.iter().enumerate() { println!("phase {} a={} b={} fs={} mut={} dead={:?} live={:?} fds={:?} esc={:?}", i, ph.a, ph.b, ph.fs_total, ph.mutations, ph.deadlock, ph.live, ph.fds, ph.escapes); for (t, l) in ph.recs.iter().enumerate() { for (k, r) in l.iter().enumerate() { println!("  {}.{} f={} {}", t, k, r.f, r.r.chars().take(400).collect::<String>()); } } }
        println!("judge: {:?}", props::judge(&p, &spec, &raw, &mut ctx));
        if let Some(c) = raw.calib { println!("calib a={} b={} sites={} fs_points={} mutations={} stubs={:?}", c.a, c.b, c.n_sites, c.fs_points.len(), c.mutations, c.stub_calls);
            for (i, pl) in (p.plans)(&spec, &c, &mut r, p.n).iter().enumerate() {
                let t = Instant::now();
                let raw = ctx.run(pl, Mode::default());
                let jd = props::judge(&p, pl, &raw, &mut ctx);
                println!("plan {} {:?}: switches {} fired {:?} stub {:?} crashed {} died {:?} -> {:?}", i, t.elapsed(), raw.main().switches, raw.main().fired, raw.main().stub_fired, raw.main().crashed, raw.died, jd);
                if jd.is_some() { println!("  plan {} prepares {}, a={}", i, serde_json::to_string(&pl.pre).unwrap_or_default(), raw.main().a); }
            } }
        vec![b'{', b'}']
    });
    println!("{:?}", out.map(|b| b.len()));
    0
}
/// Every property: the same situations twice, in different processes, must give the same histories.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in props::all() {
        if p.id == "C41" && !crate::pyhost::hosted() { continue; }
        for s in 0..n {
            let run = || in_child(600, || {
                let (spec, mut r) = gen(&p, s * 7 + 3);
                let mut ctx = Ctx::new(&spec);
                let raw = ctx.run(&spec, Mode { record: true, log: false });
                let mut h = vec![raw.log_hash()];
                if let Some(c) = raw.calib { for pl in (p.plans)(&spec, &c, &mut r, 3) { h.push(ctx.run(&pl, Mode::default()).log_hash()); } }
                serde_json::to_vec(&h).unwrap()
            });
            let (a, b) = (run(), run());
            if a != b || a.is_err() { bad += 1; println!("{} seed {}: {:?} / {:?}", p.id, s * 7 + 3, a.map(|x| String::from_utf8_lossy(&x).into_owned()), b.map(|x| String::from_utf8_lossy(&x).into_owned())); }
        }
        println!("{} done", p.id);
    }
    println!("{} mismatches", bad);
    if bad > 0 { 2 } else { 0 }
}
#[allow(dead_code)] fn _p(_: &Path) {}
pub fn dump(seed: u64, dir: &str) -> i32 { let m = crate::model::ModelSpec::gen(&mut Rng::new(seed)); crate::model::write(&m, Path::new(dir)); 0 }
