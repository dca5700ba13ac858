//! The properties: how a base situation is generated, which schedules and faults are tried on it, and how
//! the recorded history is judged.
use crate::answers;
use crate::compose;
use crate::refmodel;
use crate::tags;
use crate::fs::{Class, FaultKind, FsFault};
use crate::model::{self, ModelSpec, INTENTS};
use crate::ops::{Damage, Op};
use crate::rng::Rng;
use crate::rt::{ClockJump, Preempt, StepKind, StubFault};
use crate::runner::{Calib, Ctx, Raw, Rec, Spec, LOAD_NOW};
use crate::zipw::{ReaderPlan, ZipSpec};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct V { pub class: String, pub detail: String }
pub fn v<T>(class: &str, detail: T) -> Option<V> where T: Into<String> { Some(V { class: class.into(), detail: detail.into() }) }

pub struct Prop {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64) -> Spec,
    pub plans: fn(&Spec, &Calib, &mut Rng, usize) -> Vec<Spec>,
    pub judge: fn(&Spec, &Raw, &mut Ctx) -> Option<V>,
    /// plans per base situation
    pub n: usize,
    pub nontrivial: fn(&Raw) -> bool,
    pub rule: &'static str,
}
pub fn all() -> Vec<Prop> {
    let switched = |r: &Raw| r.main().switches > 1 && r.main().preempts > 0;
    let faulted = |r: &Raw| r.main().hard + r.main().benign + r.main().stub_fired.iter().sum::<u64>() > 0 || r.reader_failures > 0;
    let answered = |r: &Raw| r.main().recs.iter().flatten().count() > 2;
    vec![
        Prop { id: "C01", gen: c01_gen, plans: sched_plans, judge: alone_judge, n: 14, nontrivial: switched, rule: "a run in which at least one planned preemption took place while several clients were inside engine calls" },
        Prop { id: "C02", gen: c02_gen, plans: c02_plans, judge: alone_judge, n: 10, nontrivial: |r| r.main().recs.iter().map(|v| v.len()).sum::<usize>() > 3, rule: "a history of more than three calls on one engine" },
        Prop { id: "C03", gen: c03_gen, plans: c03_plans, judge: c03_judge, n: 14, nontrivial: |r| r.main().stub_fired.iter().sum::<u64>() > 0, rule: "a run in which at least one injected collaborator failure was met" },
        Prop { id: "C04", gen: c04_gen, plans: c04_plans, judge: c04_judge, n: 8, nontrivial: |r| r.main().jumps_fired > 0 || r.main().clocks.len() > 1, rule: "a run in which the clock jumped between or during calls" },
        Prop { id: "C05", gen: c05_gen, plans: c05_plans, judge: c05_judge, n: 10, nontrivial: |r| r.main().recs.iter().flatten().count() > 1, rule: "a load followed by calls under hash seeds differing from the reference run" },
        Prop { id: "C06", gen: c06_gen, plans: c06_plans, judge: c06_judge, n: 14, nontrivial: faulted, rule: "a load during which at least one injected I/O fault was met" },
        Prop { id: "C21", gen: c21_gen, plans: c21_plans, judge: c21_judge, n: 24, nontrivial: |r| r.phases.len() > 1 && r.main().recs.iter().flatten().filter(|x| x.r.starts_with("OK")).count() > 2, rule: "an engine loaded from a damaged model that answers calls" },
        Prop { id: "C07", gen: c07_gen, plans: c07_plans, judge: c07_judge, n: 24, nontrivial: |r| r.phases.len() > 1, rule: "a load of a model directory with at least one damaged file" },
        Prop { id: "C08", gen: c08_gen, plans: c08_plans, judge: c08_judge, n: 14, nontrivial: faulted, rule: "a zip load during which the reader or the disk misbehaved" },
        Prop { id: "C09", gen: c09_gen, plans: c09_plans, judge: c09_judge, n: 14, nontrivial: |r| r.main().mutations > 0, rule: "a zip load that extracted at least one member" },
        Prop { id: "C10", gen: c10_gen, plans: c10_plans, judge: c10_judge, n: 16, nontrivial: |r| r.main().crashed, rule: "an injection that was killed part way" },
        Prop { id: "C11", gen: c10_gen, plans: c11_plans, judge: c11_judge, n: 16, nontrivial: faulted, rule: "an injection during which at least one file operation failed" },
        Prop { id: "C12", gen: c12_gen, plans: c12_plans, judge: c12_judge, n: 3, nontrivial: |r| r.main().recs.iter().flatten().count() > 3, rule: "a history of at least two injections" },
        Prop { id: "C13", gen: c13_gen, plans: sched_plans, judge: c13_judge, n: 14, nontrivial: switched, rule: "a run in which at least one planned preemption took place while several native threads were inside C calls" },
        Prop { id: "C14", gen: c14_gen, plans: c14_plans, judge: c14_judge, n: 8, nontrivial: |r| r.main().recs.iter().flatten().count() > 2, rule: "a repeated history of C calls with all handed out objects destroyed" },
        Prop { id: "C15", gen: c15_gen, plans: c03_plans, judge: c03_judge, n: 16, nontrivial: switched, rule: "a run in which at least one planned preemption took place while several clients used one slot filler" },
        Prop { id: "C16", gen: c16_gen, plans: sched_plans, judge: c16_judge, n: 14, nontrivial: switched, rule: "a run in which an injection and a load were interleaved by at least one preemption" },
        Prop { id: "C17", gen: c17_gen, plans: c17_plans, judge: c17_judge, n: 8, nontrivial: |r| r.main().recs.iter().flatten().count() > 1, rule: "calls on a loaded engine while the disk was failing, damaged, removed or modified" },
        Prop { id: "C18", gen: c18_gen, plans: c18_plans, judge: c18_judge, n: 3, nontrivial: |r| r.main().recs.iter().flatten().count() > 2, rule: "a long series of calls with distinct sentences, or a repeated load-use-drop cycle" },
        Prop { id: "C20", gen: crate::engines::c20_gen, plans: sched_plans, judge: crate::engines::c20_judge, n: 3, nontrivial: |r| r.main().recs.iter().flatten().count() > 4, rule: "a run of more than four operations on several engines of different models" },
        Prop { id: "C30", gen: answers::c30_gen, plans: answers::plans, judge: answers::c30_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C31", gen: answers::c31_gen, plans: answers::plans, judge: answers::c31_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C32", gen: answers::c32_gen, plans: answers::plans, judge: answers::c32_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C33", gen: tags::c33_gen, plans: tags::c33_plans, judge: tags::c33_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C34", gen: answers::c34_gen, plans: answers::plans, judge: answers::c34_judge, n: 5, nontrivial: answered, rule: "a run of more than two answered calls with unusual texts or arguments" },
        Prop { id: "C35", gen: compose::c35_gen, plans: compose::c35_plans, judge: compose::c35_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C38", gen: refmodel::c38_gen, plans: answers::plans, judge: refmodel::c38_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C40", gen: refmodel::c40_gen, plans: answers::plans, judge: refmodel::c40_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C39", gen: refmodel::c39_gen, plans: answers::plans, judge: refmodel::c39_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C37", gen: compose::c37_gen, plans: answers::plans, judge: compose::c37_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C36", gen: compose::c36_gen, plans: answers::plans, judge: compose::c36_judge, n: 6, nontrivial: answered, rule: "a run of more than two answered calls" },
        Prop { id: "C41", gen: crate::pywrap::c41_gen, plans: crate::pywrap::c41_plans, judge: crate::pywrap::c41_judge, n: 12, nontrivial: |r| r.main().preempts > 0 || r.main().recs.iter().flatten().count() > 2, rule: "a run in which several Python threads took turns inside the wrapper, or a repeated history of more than two calls of it" },
        Prop { id: "C19", gen: c19_gen, plans: c19_plans, judge: c19_judge, n: 14, nontrivial: switched, rule: "a run in which injections into different entities were interleaved by at least one preemption" },
    ]
}
pub fn by_id(id: &str) -> Prop { all().into_iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id)) }

/// What must never be in any history, then the property's own judgement.
pub fn judge(p: &Prop, spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    if raw.harness.is_some() { return None; }
    if let Some(e) = &raw.setup_failed { return v("load", format!("a valid model or handle could not be set up: {}", e)); }
    if let Some(d) = &raw.died { return v(if d.starts_with("timeout") { "hang" } else { "died" }, d.clone()); }
    for (i, ph) in raw.phases.iter().enumerate() {
        if let Some(d) = &ph.deadlock { return v("deadlock", d.clone()); }
        for (t, l) in ph.recs.iter().enumerate() { for (k, r) in l.iter().enumerate() {
            if i == 1 && killed(spec, raw, t) { continue; }
            if r.r.starts_with("PANIC") { return v("panic", format!("phase {} client {} operation {}: {}", i, t, k, r.r)); }
            if r.r.starts_with("BAD") { return v("ffi", format!("phase {} client {} operation {}: {}", i, t, k, r.r)); }
        } }
    }
    (p.judge)(spec, raw, ctx)
}
fn killed(spec: &Spec, raw: &Raw, t: usize) -> bool { raw.main().crashed && spec.fs_faults.iter().any(|f| f.kind.crash() && f.tid.map(|x| x == t).unwrap_or(true)) }

// ---- generators ----
fn hash_seed(r: &mut Rng) -> u64 { r.next() >> 16 }
pub fn base(id: &str, r: &mut Rng, seed: u64) -> Spec {
    let mut s = Spec::new(id, seed, ModelSpec::gen(r));
    s.hash_seed = hash_seed(r);
    s.now = LOAD_NOW + r.range(0, 400_000_000);
    s
}
pub fn some_intent(r: &mut Rng, m: &ModelSpec) -> String { if r.chance(1, 25) { "NoSuchIntent".into() } else { r.pick(&m.intent_defs()).name.to_string() } }
fn filter(r: &mut Rng, m: &ModelSpec) -> Option<Vec<String>> {
    if !r.chance(1, 3) { return None; }
    let mut v: Vec<String> = m.intent_defs().iter().filter(|_| r.chance(1, 2)).map(|d| d.name.to_string()).collect();
    if r.chance(1, 20) { v.push("NoSuchIntent".into()); }
    Some(v)
}
pub fn query(r: &mut Rng, m: &ModelSpec, texts: &[String]) -> Op {
    let text = r.pick(texts).clone();
    let sa = *r.pick(&[0usize, 0, 1, 3]);
    match r.below(10) {
        0..=4 => Op::Parse { text, wl: filter(r, m), bl: filter(r, m), ia: *r.pick(&[0usize, 0, 1, 2, 5]), sa, e: 0 },
        5 | 6 => Op::Intents { text, e: 0 },
        7 | 8 => Op::Slots { text, intent: some_intent(r, m), sa, e: 0 },
        _ => {
            let intent = some_intent(r, m);
            let slots = INTENTS.iter().find(|d| d.name == intent).map(|d| d.slots).unwrap_or(&[]);
            let (slot, ent) = if slots.is_empty() || r.chance(1, 20) { ("nope", "room") } else { *r.pick(slots) };
            let text = if r.chance(2, 3) { model::entity_value(r, ent) } else { text };
            Op::Extract { text, intent, slot: slot.to_string(), sa, e: 0 }
        }
    }
}
pub fn texts(r: &mut Rng, m: &ModelSpec, n: usize) -> Vec<String> {
    let mut t: Vec<String> = (0..n).map(|_| model::sentence(r, m)).collect();
    if r.chance(1, 3) { let x = t[0].to_uppercase(); t.push(x); }
    if r.chance(1, 4) { let x = t[0].to_lowercase(); t.push(x); }
    t
}
pub fn cap(r: &mut Rng) -> Option<usize> { if r.chance(2, 5) { Some(r.range(1, 4) as usize) } else { None } }

// ---- schedules ----
pub fn preempts(r: &mut Rng, c: &Calib) -> Vec<Preempt> {
    let k = match r.below(6) { 0..=2 => 1, 3 | 4 => 2, _ => 3 + r.below(4) };
    let mut out: Vec<Preempt> = vec![];
    for i in 0..k {
        let pick = r.below(4) as u32;
        let p = if i > 0 && r.chance(1, 2) {
            let last = out[i - 1];
            let span = if last.kind == StepKind::A { c.a } else { c.b } + 2;
            let max = (span as f64).log2() as u64 + 1;
            let off = 1 + r.next() % (1u64 << r.below(max as usize + 1));
            Preempt { kind: last.kind, at: last.at + off, pick }
        } else {
            match r.below(8) {
                0 | 1 if c.a > 0 => Preempt { kind: StepKind::A, at: 1 + r.next() % c.a, pick },
                2 | 3 if !c.a_at_b.is_empty() => { let a = *r.pick(&c.a_at_b) as i64 + r.range(-20, 40); Preempt { kind: StepKind::A, at: a.max(1) as u64, pick } }
                4 | 5 if !c.sites.is_empty() => Preempt { kind: StepKind::A, at: *r.pick(&c.sites), pick },
                _ => Preempt { kind: StepKind::B, at: 1 + r.next() % c.b.max(1), pick },
            }
        };
        out.push(p);
    }
    out
}
pub fn schedule(s: &mut Spec, r: &mut Rng, c: &Calib) {
    s.preempts = preempts(r, c);
    s.forced = if r.chance(1, 2) { (0..r.below(5)).map(|_| r.below(3) as u32).collect() } else { vec![] };
    if r.chance(1, 3) { s.preempts.insert(0, Preempt { kind: StepKind::B, at: 1, pick: r.below(3) as u32 }); }
}
fn sched_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| { let mut p = s.clone(); schedule(&mut p, r, c); p }).collect()
}

// ---- comparing ----
pub fn is_call(op: &Op) -> bool { op.engine().is_some() || matches!(op, Op::Fill { .. } | Op::Prob { .. }) }
pub fn diff(what: &str, op: &Op, got: &str, want: &str) -> String {
    let cut = |s: &str| s.chars().take(700).collect::<String>();
    format!("{}: {} gave {} but alone it gives {}", what, serde_json::to_string(op).unwrap(), cut(got), cut(want))
}
/// Every (phase, client, index, operation, record) of the phases in which clients act.
pub fn each<'a>(spec: &'a Spec, raw: &'a Raw) -> Vec<(usize, usize, usize, &'a Op, &'a Rec)> {
    let mut out = vec![];
    let n = raw.phases.len();
    for (i, ph) in raw.phases.iter().enumerate() {
        let lists: Vec<&Vec<Op>> = if i == 0 { vec![&spec.pre] } else if i + 1 == n && spec.knob("repeat") < 2 { vec![&spec.post] } else { spec.threads.iter().collect() };
        let lists = if i == 1 { spec.threads.iter().collect() } else { lists };
        for (t, l) in ph.recs.iter().enumerate() { for (k, r) in l.iter().enumerate() { if let Some(op) = lists.get(t).and_then(|l| l.get(k)) { out.push((i, t, k, op, r)); } } }
    }
    out
}
fn alone_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) { continue; }
        let want = ctx.alone(spec, op, spec.now);
        if rec.r != want { return v("answer", diff(&format!("phase {} client {} operation {}", i, t, k), op, &rec.r, &want)); }
    }
    None
}

// ---- C01 ----
fn c01_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C01", r, seed);
    s.cap = cap(r);
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }];
    let n = 1 + r.below(3);
    let tx = texts(r, &s.model, n);
    let n = 2 + r.geometric(3) - 1;
    for _ in 0..n { let k = 1 + r.below(3); s.threads.push((0..k).map(|_| query(r, &s.model, &tx)).collect()); }
    if r.chance(1, 3) { for _ in 0..1 + r.below(3) { let q = query(r, &s.model, &tx); s.pre.push(q); } }
    for _ in 0..2 { let q = if r.chance(1, 2) { let t = r.below(s.threads.len()); s.threads[t][0].clone() } else { query(r, &s.model, &tx) }; s.post.push(q); }
    s
}

// ---- C02 ----
fn c02_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C02", r, seed);
    s.cap = cap(r);
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }];
    let n = 2 + r.below(3);
    let mut tx = texts(r, &s.model, n);
    let x = tx[0].clone();
    tx.push(x.to_uppercase());
    if r.chance(1, 2) { tx.push(format!(" {}", x)); }
    if r.chance(1, 2) { tx.push(x.replace(' ', "  ")); }
    if r.chance(1, 3) { let mut c = x.chars(); if let Some(f) = c.next() { tx.push(f.to_uppercase().collect::<String>() + c.as_str()); } }
    let pool: Vec<Op> = (0..10).map(|_| query(r, &s.model, &tx)).collect();
    s.threads = vec![pool];
    s
}
fn c02_plans(s: &Spec, _c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    let pool = s.threads[0].clone();
    (0..n).map(|_| {
        let mut p = s.clone();
        let k = 4 + r.below(20);
        p.threads = vec![(0..k).map(|_| r.pick(&pool).clone()).collect()];
        p
    }).collect()
}

// ---- C03, C15 ----
fn c03_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = c01_gen(r, seed);
    s.prop = "C03".into();
    if r.chance(1, 3) { s.threads.truncate(1); }
    s.post = s.threads.iter().flatten().cloned().collect();
    if r.chance(1, 2) { let mut tx: Vec<String> = vec![]; for o in &mut s.post { if let Some(t) = o.text_mut() { tx.push(t.clone()); } } for _ in 0..3 { let q = query(r, &s.model, &tx); s.post.push(q); } }
    s
}
fn c03_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        if s.threads.len() > 1 { schedule(&mut p, r, c); }
        let kinds: Vec<u32> = (1..4).filter(|k| c.stub_calls[*k as usize] > 0).collect();
        if kinds.is_empty() || (s.prop == "C15" && r.chance(1, 2)) { return p; }
        for _ in 0..r.geometric(4) {
            let kind = *r.pick(&kinds);
            let nth = r.next() % (c.stub_calls[kind as usize] + 1);
            p.stub_faults.push(StubFault { kind, nth });
            if r.chance(1, 6) { for d in 1..4 { p.stub_faults.push(StubFault { kind, nth: nth + d }); } }
        }
        p
    }).collect()
}
fn c03_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) { continue; }
        if rec.f > 0 {
            if !rec.r.starts_with("ERR") { return v("swallowed", format!("phase {} client {} operation {}: {} met {} failing collaborator calls but answered {}", i, t, k, serde_json::to_string(op).unwrap(), rec.f, rec.r)); }
            continue;
        }
        let want = ctx.alone(spec, op, spec.now);
        if rec.r != want { return v("answer", diff(&format!("phase {} client {} operation {} (not itself hit by a failure)", i, t, k), op, &rec.r, &want)); }
    }
    None
}
fn c15_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C15", r, seed);
    while !s.model.parsers.contains(&2) { s.model.parsers.push(2); }
    s.setup = vec![Op::LoadFillers];
    s.cap = cap(r);
    let defs = s.model.intent_defs();
    let d = *r.pick(&defs);
    let n = 1 + r.below(3);
    let tx = texts(r, &s.model, n);
    let labels = model::crf_labels(&s.model, d);
    let one = |r: &mut Rng| {
        let d2 = if r.chance(5, 6) { d } else { *r.pick(&defs) };
        let text = if r.chance(1, 2) && !d2.templates.is_empty() { let t = *r.pick(d2.templates); model::fill(r, d2.name, t) } else { r.pick(&tx).clone() };
        if r.chance(1, 2) { Op::Fill { intent: d2.name.into(), text } } else {
            let k = r.below(9);
            let mut tags: Vec<String> = (0..k).map(|_| r.pick(&labels).clone()).collect();
            if r.chance(1, 8) { tags.push("I-unseen".into()); }
            Op::Prob { intent: d2.name.into(), text, tags }
        }
    };
    for _ in 0..2 + r.below(3) { let k = 1 + r.below(3); s.threads.push((0..k).map(|_| one(r)).collect()); }
    s.post = (0..2).map(|_| one(r)).collect();
    s
}

// ---- C04 ----
fn c04_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C04", r, seed);
    for i in [3usize, 2] { if !s.model.intents.contains(&i) { s.model.intents.push(i); } }
    s.cap = cap(r);
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }];
    s.now = LOAD_NOW + r.range(1_000, 40_000_000);
    let timed: Vec<(&str, &str)> = s.model.templates().into_iter().filter(|(i, t)| model::parts(t).iter().any(|p| if let model::Part::Slot(x) = p { model::entity_of(i, x) == Some("snips/datetime") } else { false })).collect();
    let k = 1 + r.below(2);
    let mut pool: Vec<(String, String)> = (0..k).map(|_| { let (i, t) = *r.pick(&timed); (i.to_string(), model::fill(r, i, t)) }).collect();
    let p0 = pool[0].clone();
    if r.chance(1, 2) { pool.push((p0.0.clone(), p0.1.to_uppercase())); }
    let q = |r: &mut Rng| {
        let (intent, text) = r.pick(&pool).clone();
        let sa = *r.pick(&[0usize, 1, 2]);
        match r.below(6) {
            0..=2 => Op::Parse { text, wl: None, bl: None, ia: *r.pick(&[0usize, 0, 2, 4]), sa, e: 0 },
            3 | 4 => Op::Slots { text, intent, sa, e: 0 },
            _ => {
                let ds: Vec<&str> = INTENTS.iter().find(|d| d.name == intent).unwrap().slots.iter().filter(|x| x.1 == "snips/datetime").map(|x| x.0).collect();
                let v = model::entity_value(r, "snips/datetime");
                Op::Extract { text: v, intent, slot: r.pick(&ds).to_string(), sa, e: 0 }
            }
        }
    };
    let n = if r.chance(1, 2) { 1 } else { 2 + r.below(2) };
    for _ in 0..n { let k = 2 + r.below(4); let mut l = vec![]; for _ in 0..k { l.push(q(r)); if r.chance(1, 2) { l.push(Op::Jump { delta: jump(r) }); } } s.threads.push(l); }
    s.post = vec![Op::Jump { delta: 1_000_003 }, q(r), q(r)];
    s
}
pub fn jump(r: &mut Rng) -> i64 { *r.pick(&[1i64, 61, 3600, 86_400, 604_800, 31_536_000, -1, -3600, -86_400, -2_000_000]) + r.range(0, 50) }
fn c04_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        if s.threads.len() > 1 { schedule(&mut p, r, c); }
        for _ in 0..r.below(3) { p.jumps.push(ClockJump { at_b: 1 + r.next() % c.b.max(1), delta_secs: jump(r) }); }
        p
    }).collect()
}
pub fn parse_ok(s: &str) -> Option<Value> { s.strip_prefix("OK ").and_then(|j| serde_json::from_str(j).ok()) }
fn leaves_ok(got: &Value, refs: &[&Value]) -> bool {
    match got {
        Value::Object(m) => refs.iter().any(|r| r.as_object().map(|o| o.len() == m.len()).unwrap_or(false)) && m.iter().all(|(k, x)| { let sub: Vec<&Value> = refs.iter().filter_map(|r| r.get(k)).collect(); leaves_ok(x, &sub) }),
        Value::Array(a) => { let same: Vec<&&Value> = refs.iter().filter(|r| r.as_array().map(|b| b.len() == a.len()).unwrap_or(false)).collect(); !same.is_empty() && a.iter().enumerate().all(|(i, x)| { let sub: Vec<&Value> = same.iter().map(|r| &r[i]).collect(); leaves_ok(x, &sub) }) }
        x => refs.iter().any(|r| *r == x),
    }
}
fn c04_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) { continue; }
        let clocks = &raw.phases[i].clocks;
        let mut refs = vec![];
        for c in clocks[rec.c.0..=rec.c.1.min(clocks.len() - 1)].iter() {
            let mut s = spec.clone();
            s.load_now = *c; // the reference engine is loaded at that time, too
            refs.push((*c, ctx.alone(&s, op, *c)));
        }
        if refs.iter().any(|x| x.1 == rec.r) { continue; }
        if refs.len() > 1 {
            let vals: Vec<Value> = refs.iter().filter_map(|x| parse_ok(&x.1)).collect();
            if let Some(g) = parse_ok(&rec.r) { if leaves_ok(&g, &vals.iter().collect::<Vec<_>>()) { continue; } }
        }
        return v("time", format!("phase {} client {} operation {}: {} gave {} while the clock read {:?}; a fresh engine at that time gives {}", i, t, k, serde_json::to_string(op).unwrap(), rec.r, refs.iter().map(|x| x.0).collect::<Vec<_>>(), refs[0].1));
    }
    None
}

// ---- C05 ----
fn c05_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C05", r, seed);
    s.hash_seed = 1;
    s.model.ties = r.chance(5, 6);
    if s.model.intents.len() < 4 { for i in 0..INTENTS.len() { if !s.model.intents.contains(&i) && s.model.intents.len() < 5 { s.model.intents.push(i); } } }
    let mut l = vec![Op::Load { e: 0, dir: "model".into() }];
    let mut tx: Vec<String> = texts(r, &s.model, 2);
    let tied: Vec<(&str, &str)> = s.model.templates().into_iter().filter(|(i, t)| s.model.templates().iter().any(|(j, u)| u == t && i != j)).collect();
    for _ in 0..3 { if !tied.is_empty() { let (i, t) = *r.pick(&tied); tx.push(model::fill(r, i, t)); } }
    for t in &tx { l.push(Op::Intents { text: t.clone(), e: 0 }); }
    for _ in 0..5 { l.push(query(r, &s.model, &tx)); }
    s.threads = vec![l];
    s
}
fn c05_plans(s: &Spec, _c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| { let mut p = s.clone(); p.hash_seed = hash_seed(r); if r.chance(1, 4) { p.pre = vec![Op::Load { e: 7, dir: "model".into() }]; } p }).collect()
}
fn c05_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let mut s = spec.calm(vec![], spec.threads.clone(), vec![]);
    s.hash_seed = 1;
    let want = ctx.reference(&s);
    for (k, (g, w)) in raw.main().recs[0].iter().zip(want.main().recs.first().map(|v| &v[..]).unwrap_or(&[])).enumerate() {
        if g.r != w.r { return v("random", format!("{} gave {} with hash seed {} and {} with hash seed 1", serde_json::to_string(&spec.threads[0][k]).unwrap(), g.r, spec.hash_seed, w.r)); }
    }
    None
}

// ---- C06 ----
fn c06_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C06", r, seed);
    let n = if r.chance(1, 4) { 2 } else { 1 };
    let tx = texts(r, &s.model, 2);
    for t in 0..n { let mut l = vec![Op::Load { e: t, dir: "model".into() }]; for _ in 0..3 { l.push(query(r, &s.model, &tx).with_engine(t)); } s.threads.push(l); }
    s.post = vec![Op::Load { e: 9, dir: "model".into() }];
    for o in s.threads[0][1..].to_vec() { s.post.push(o.with_engine(9)); }
    s
}
const READ_HARD: &[FaultKind] = &[FaultKind::Eio, FaultKind::Enoent, FaultKind::Eacces, FaultKind::Emfile];
fn fs_point<'a>(r: &mut Rng, c: &'a Calib, ok: impl Fn(Class) -> bool) -> Option<&'a (usize, Class, u64, u64, String)> {
    let v: Vec<_> = c.fs_points.iter().filter(|p| ok(p.1)).collect();
    if v.is_empty() { None } else { Some(*r.pick(&v)) }
}
fn kind_for(r: &mut Rng, class: Class, benign: bool) -> FaultKind {
    if benign { return if r.chance(1, 2) { FaultKind::Short } else { FaultKind::Eintr }; }
    match class {
        Class::Read => FaultKind::Eio,
        Class::Write | Class::Sync => *r.pick(&[FaultKind::Enospc, FaultKind::Eio]),
        Class::Create | Class::Mkdir => *r.pick(&[FaultKind::Enospc, FaultKind::Eacces, FaultKind::Emfile, FaultKind::Eio]),
        Class::Rename | Class::Remove | Class::Link | Class::Meta => *r.pick(&[FaultKind::Eio, FaultKind::Eacces, FaultKind::Enospc]),
        _ => *r.pick(READ_HARD),
    }
}
/// A fault at a point of the calibration run, addressed per thread when several threads run.
fn fault_at(r: &mut Rng, p: &(usize, Class, u64, u64, String), threads: usize, kind: FaultKind, sticky: bool) -> FsFault {
    let by_tid = threads > 1 || r.chance(1, 4);
    FsFault { class: Some(p.1), nth: if by_tid { p.2 } else { p.3 }, kind, sticky, tid: if by_tid { Some(p.0) } else { None } }
}
fn c06_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        if s.threads.len() > 1 { schedule(&mut p, r, c); }
        let benign = r.chance(1, 4);
        if benign {
            let k = 1 + r.below(4);
            for _ in 0..k { if let Some(pt) = fs_point(r, c, |c| c == Class::Read) { let kd = kind_for(r, pt.1, true); let st = kd == FaultKind::Short && r.chance(1, 3); p.fs_faults.push(fault_at(r, pt, s.threads.len(), kd, st)); } }
        } else if let Some(pt) = { let rd = r.chance(1, 2); fs_point(r, c, |c| if rd { c == Class::Read } else { c != Class::Read }) } {
            let k = kind_for(r, pt.1, false);
            let sticky = r.chance(1, 4);
            p.fs_faults.push(fault_at(r, pt, s.threads.len(), k, sticky));
        }
        p
    }).collect()
}
fn hard_on(raw: &Raw, classes: &[Class]) -> bool { raw.main().fired.keys().any(|k| { let (c, f) = k.split_once('/').unwrap(); f != "Eintr" && f != "Short" && classes.iter().any(|x| format!("{:?}", x) == c) }) }
fn hard_only_on(raw: &Raw, classes: &[Class]) -> bool { raw.main().fired.keys().all(|k| { let (c, f) = k.split_once('/').unwrap(); f == "Eintr" || f == "Short" || classes.iter().any(|x| format!("{:?}", x) == c) }) }
fn dir_refs(spec: &Spec, ctx: &mut Ctx, ops: &[Op]) -> Vec<String> {
    let mut l = vec![Op::Load { e: 0, dir: "model".into() }];
    l.extend(ops.iter().map(|o| o.with_engine(0)));
    let r = ctx.reference(&spec.calm(vec![], vec![l], vec![]));
    r.main().recs.first().map(|v| v.iter().map(|x| x.r.clone()).collect()).unwrap_or_default()
}
/// `ops[0]` loads, the rest are calls: compares with the same calls on an engine loaded without faults.
fn same_engine(spec: &Spec, ctx: &mut Ctx, who: &str, ops: &[Op], recs: &[Rec]) -> Option<V> {
    if recs.is_empty() || !recs[0].r.starts_with("OK") { return None; }
    let want = dir_refs(spec, ctx, &ops[1..]);
    for k in 1..recs.len() {
        if want.get(k).map(|w| *w != recs[k].r).unwrap_or(true) { return v("answer", diff(who, &ops[k], &recs[k].r, want.get(k).map(|s| s.as_str()).unwrap_or("nothing"))); }
    }
    None
}
fn c06_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let m = raw.main();
    if !m.fds.is_empty() || !raw.phases.last().unwrap().fds.is_empty() { return v("fd", format!("file descriptors left open: {:?}", m.fds)); }
    for (t, ops) in spec.threads.iter().enumerate() {
        let recs = &m.recs[t];
        if recs.is_empty() { continue; }
        let hit = recs[0].f > 0;
        if recs[0].r.starts_with("OK") {
            // Errors of open and read cannot be ignored; a failing stat may legitimately be irrelevant.
            if hit && hard_on(raw, &[Class::Open, Class::Read]) && !hard_on(raw, &[Class::Stat, Class::Dir]) { return v("swallowed", format!("client {}: loading reported success although {:?} at {:?} happened", t, m.fired, m.fired_at)); }
        } else if !hit { return v("load", format!("client {}: loading failed without any injected failure of its own ({}); faults elsewhere {:?}", t, recs[0].r, m.fired)); }
        if let Some(x) = same_engine(spec, ctx, &format!("client {}", t), ops, recs) { return Some(x); }
    }
    let post = raw.post();
    if !post[0].r.starts_with("OK") { return v("retry", format!("loading again without faults failed: {}", post[0].r)); }
    same_engine(spec, ctx, "after the retry", &spec.post, post)
}

// ---- C07 ----
fn c07_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C07", r, seed);
    s.threads = vec![vec![Op::Load { e: 0, dir: "model".into() }, Op::Drop { e: 0 }]];
    s
}
fn some_damage(r: &mut Rng) -> Damage {
    let file = r.below(1000);
    let permille = r.below(1000) as u32;
    match r.below(12) {
        0 | 1 => Damage::Truncate { file, permille },
        2 => Damage::Flip { file, permille, bit: r.below(8) as u8 },
        3 => Damage::Overwrite { file, permille, len: 1 + r.below(64), byte: *r.pick(&[0u8, 0xff, b'0', b'"', b'{', b'}', b']', b'\n']) },
        4 => Damage::Empty { file },
        5 => Damage::Swap { file, other: r.below(1000) },
        6..=8 => Damage::Json { file, node: r.below(100_000), with: r.below(12) as u8 },
        9 => Damage::Line { file, line: r.below(100), how: r.below(7) as u8 },
        10 => Damage::Version { v: r.pick(&["0.19.0", "0.20.1", "", "v0.20.0", "0.20", "1.0.0", "0.20.0 "]).to_string() },
        _ => Damage::Remove { file },
    }
}
fn c07_plans(s: &Spec, _c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| { let mut p = s.clone(); p.pre = (0..r.geometric(3)).map(|_| Op::Damage { d: some_damage(r) }).collect(); p }).collect()
}
fn c07_judge(spec: &Spec, raw: &Raw, _ctx: &mut Ctx) -> Option<V> {
    let rec = &raw.main().recs[0][0];
    if !rec.r.starts_with("OK") && !rec.r.starts_with("ERR") { return v("outcome", rec.r.clone()); }
    if let [Op::Damage { d: Damage::Version { v: w } }] = &spec.pre[..] {
        let e = &rec.r;
        if !e.starts_with("ERR") { return v("version", format!("a model of version {:?} was accepted", w)); }
        if !e.contains(w.as_str()) || !e.contains(snips_nlu_lib::MODEL_VERSION) { return v("version", format!("the refusal does not name both versions {:?} and {}: {}", w, snips_nlu_lib::MODEL_VERSION, e)); }
    }
    if spec.pre.is_empty() && !rec.r.starts_with("OK") { return v("load", format!("an undamaged model does not load: {}", rec.r)); }
    if !raw.main().fds.is_empty() { return v("fd", format!("file descriptors left open: {:?}", raw.main().fds)); }
    None
}

// ---- C21 ----
fn c21_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C21", r, seed);
    s.cap = cap(r);
    let tx = texts(r, &s.model, 4);
    let mut l = vec![];
    if r.chance(1, 4) {
        l.push(Op::FfiCreate { h: 9, zip: if r.chance(1, 3) { Some(some_zip(r)) } else { None }, dir: "model".into() });
        for _ in 0..6 { l.push(ffi(r, &s.model, &tx, 9, false)); }
        l.push(Op::FfiDestroy { h: 9 });
    } else {
        l.push(if r.chance(1, 5) { Op::LoadZip { e: 0, zip: some_zip(r) } } else { Op::Load { e: 0, dir: "model".into() } });
        for _ in 0..6 { l.push(query(r, &s.model, &tx)); }
        l.push(Op::Drop { e: 0 });
    }
    if r.chance(1, 3) {
        let mut ents = injectable(&s.model);
        r.shuffle(&mut ents);
        ents.truncate(2);
        l.push(inject(r, &s.model, &ents));
        l.push(Op::Load { e: 1, dir: "model".into() });
        for _ in 0..3 { l.push(query(r, &s.model, &tx).with_engine(1)); }
    }
    s.threads = vec![l];
    s
}
fn c21_plans(s: &Spec, _c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    // A number or a name that is still one of its kind is what loading is least likely to refuse.
    let one = |r: &mut Rng| match r.below(6) {
        0 => some_damage(r),
        1 => Damage::Json { file: r.below(1000), node: r.below(100_000), with: r.below(15) as u8 },
        _ => Damage::Json { file: r.below(1000), node: r.below(100_000), with: *r.pick(&[4u8, 5, 7, 11, 12, 13, 14]) },
    };
    (0..n).map(|_| { let mut p = s.clone(); p.pre = (0..1 + r.geometric(2)).map(|_| Op::Damage { d: one(r) }).collect(); p }).collect()
}
fn c21_judge(spec: &Spec, raw: &Raw, _ctx: &mut Ctx) -> Option<V> {
    for (i, t, k, op, rec) in each(spec, raw) {
        if matches!(op, Op::Damage { .. }) { continue; }
        if !["OK", "ERR", "NO", "KO"].iter().any(|x| rec.r.starts_with(x)) { return v("outcome", format!("phase {} client {} operation {}: {} on a damaged model: {}", i, t, k, crate::answers::show(op), crate::answers::cut(&rec.r))); }
    }
    if !raw.main().fds.is_empty() { return v("fd", format!("file descriptors left open: {:?}", raw.main().fds)); }
    None
}

// ---- C08, C09 ----
pub fn some_zip(r: &mut Rng) -> ZipSpec {
    ZipSpec { deflate: r.chance(1, 2), top: r.pick(&["engine", "trained_engine", "é n g"]).to_string(), dirs: r.chance(1, 2), ..Default::default() }
}
fn some_reader(r: &mut Rng) -> ReaderPlan { ReaderPlan { chunk: *r.pick(&[0usize, 0, 1, 7, 100, 4096]), intr: *r.pick(&[0u64, 0, 2, 5, 17]), err_at: None, sticky: false } }
fn c08_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C08", r, seed);
    let tx = texts(r, &s.model, 2);
    let n = if r.chance(1, 5) { 2 } else { 1 };
    for t in 0..n { let mut z = some_zip(r); z.reader = some_reader(r); let mut l = vec![Op::LoadZip { e: t, zip: z }]; for _ in 0..3 { l.push(query(r, &s.model, &tx).with_engine(t)); } s.threads.push(l); }
    s
}
fn zip_mut(p: &mut Spec, t: usize) -> Option<&mut ZipSpec> { p.threads[t].iter_mut().find_map(|o| match o { Op::LoadZip { zip, .. } => Some(zip), Op::FfiCreate { zip, .. } => zip.as_mut(), _ => None }) }
fn zip_faults(p: &mut Spec, c: &Calib, r: &mut Rng) {
    let nt = p.threads.len();
    let t = r.below(nt);
    match r.below(8) {
        0 => { let n = c.reads.first().cloned().unwrap_or(1).max(1); if let Some(z) = zip_mut(p, t) { z.reader.err_at = Some(r.next() % n); z.reader.sticky = r.chance(1, 2); } }
        1 => { let k = if r.chance(1, 3) { 999 } else { r.below(1000) as u32 }; if let Some(z) = zip_mut(p, t) { z.trunc = Some(k); } }
        2 => { if let Some(pt) = fs_point(r, c, |c| c == Class::Read || c == Class::Write) { let k = kind_for(r, pt.1, true); let st = k == FaultKind::Short && r.chance(1, 3); p.fs_faults.push(fault_at(r, pt, nt, k, st)); } }
        3..=6 => {
            let which = r.below(4);
            if let Some(pt) = fs_point(r, c, |c| match which { 0 => c == Class::Create, 1 => c == Class::Write, 2 => matches!(c, Class::Mkdir | Class::Open | Class::Read), _ => true }) { let k = kind_for(r, pt.1, false); let st = r.chance(1, 4); p.fs_faults.push(fault_at(r, pt, nt, k, st)); }
        }
        _ => {}
    }
}
fn c08_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| { let mut p = s.clone(); if s.threads.len() > 1 { schedule(&mut p, r, c); } zip_faults(&mut p, c, r); p }).collect()
}
fn c08_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let m = raw.main();
    for (t, ops) in spec.threads.iter().enumerate() {
        let recs = &m.recs[t];
        let zip = match &ops[0] { Op::LoadZip { zip, .. } => zip, _ => continue };
        if recs.is_empty() { continue; }
        let hit = recs[0].f > 0;
        let broken = zip.trunc.map(|k| k < 1000).unwrap_or(false);
        let reader_failed = zip.reader.err_at.is_some() && raw.reader_failures > 0;
        if recs[0].r.starts_with("OK") {
            if broken { return v("swallowed", format!("client {}: a truncated archive was loaded", t)); }
            if reader_failed && spec.threads.iter().filter(|l| matches!(&l[0], Op::LoadZip { zip, .. } if zip.reader.err_at.is_some())).count() == 1 { return v("swallowed", format!("client {}: loading reported success although the reader failed", t)); }
            if hit && hard_on(raw, &[Class::Create, Class::Write, Class::Mkdir, Class::Open, Class::Read]) && hard_only_on(raw, &[Class::Create, Class::Write, Class::Mkdir, Class::Open, Class::Read]) { return v("swallowed", format!("client {}: loading reported success although {:?} at {:?} happened", t, m.fired, m.fired_at)); }
        } else if !hit && !broken && zip.reader.err_at.is_none() && zip.flip.is_none() { return v("load", format!("client {}: loading a valid archive failed: {}; faults elsewhere {:?}", t, recs[0].r, m.fired)); }
        if let Some(x) = same_engine(spec, ctx, &format!("client {} (zip)", t), ops, recs) { return Some(x); }
    }
    None
}
static EVIL: &[&str] = &["../evil.txt", "../../evil.txt", "/evil_abs.txt", "engine/../../evil2.txt", "..\\evil3.txt", "engine/./x/../../../evil4", "../model/nlu_engine.json", "../canary.txt", "engine/../../canary.txt", "../", "/", "engine/resources", "engine/nlu_engine.json/sub", "C:\\evil5", "a/b/c/d.txt", "\u{0}", "engine/nul\u{0}x", "..", "../../../../../../../../evil6", "extra/", "x\\", "../tmp/evil7", "./../evil8"];
fn c09_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C09", r, seed);
    let n = r.geometric(3);
    for t in 0..n {
        let mut z = some_zip(r);
        if r.chance(1, 4) { z.reader = some_reader(r); }
        if r.chance(2, 3) { z.evil = (0..r.geometric(3)).map(|_| r.pick(EVIL).to_string()).collect(); }
        if r.chance(1, 12) { z.top = r.pick(&["..", "../up", "/abs", ""]).to_string(); }
        let ffi = r.chance(1, 4) && z.reader == ReaderPlan::default();
        s.threads.push(vec![if ffi { Op::FfiCreate { h: t, zip: Some(z), dir: "model".into() } } else { Op::LoadZip { e: t, zip: z } }]);
    }
    s.pre = vec![Op::Snap, Op::TmpSnap];
    s.post = vec![Op::Snap, Op::TmpSnap];
    s.knobs.insert("access".into(), 1);
    s
}
fn c09_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| { let mut p = s.clone(); if s.threads.len() > 1 { schedule(&mut p, r, c); } if r.chance(2, 3) { zip_faults(&mut p, c, r); } if r.chance(1, 10) { let t = r.below(p.threads.len()); if let Some(z) = zip_mut(&mut p, t) { z.flip = Some(r.below(1000) as u32); } } p }).collect()
}
fn c09_judge(_spec: &Spec, raw: &Raw, _ctx: &mut Ctx) -> Option<V> {
    let m = raw.main();
    if !m.escapes.is_empty() { return v("escape", format!("tried to modify outside the temporary directory: {:?}", m.escapes)); }
    if !m.fds.is_empty() { return v("fd", format!("file descriptors left open: {:?}", m.fds)); }
    let mut owner: BTreeMap<String, usize> = BTreeMap::new();
    for (t, class, path) in &m.access {
        let own = path.strip_prefix("/tmp/").map(|p| p.split('/').next().unwrap().to_string());
        match own {
            None => if class.mutating() && !(*class == crate::fs::Class::Mkdir && path == "/tmp") { return v("escape", format!("client {} modified {} ({:?}) outside a temporary directory of its own", t, path, class)); },
            Some(d) => { let o = owner.entry(d.clone()).or_insert(*t); if *o != *t { return v("shared", format!("clients {} and {} both used the temporary directory {} ({:?} {})", o, t, d, class, path)); } }
        }
    }
    let (pre, post) = (&raw.pre().recs[0], raw.post());
    if pre[0].r != post[0].r { return v("escape", "the model directory was changed by loading a zip"); }
    let cleanup_ok = hard_only_on(raw, &[Class::Open, Class::Create, Class::Read, Class::Write, Class::Mkdir]);
    if cleanup_ok && pre[1].r != post[1].r { return v("left", format!("left behind: before {} after {}", pre[1].r, post[1].r)); }
    None
}

// ---- C10, C11 ----
fn inj_value(r: &mut Rng, e: &str) -> String {
    match r.below(8) {
        0..=3 => r.pick(&["Zorblax", "Blue Moon", "making cups", "two lights", "Grand Rooms", "ultra", "New One", "é clair", "lamps", "calling Home", "O K", "İstanbul", "Ⅷ two", "STRASSE ß"]).to_string(),
        4 | 5 => model::ENTITIES.iter().chain(model::BUILTIN_GAZ).find(|d| d.name == e).map(|d| { let x = r.pick(d.values); if r.chance(1, 2) { x.0.to_uppercase() } else { x.0.to_string() } }).unwrap_or_else(|| "Zed".into()),
        _ => format!("v{}", r.below(40)),
    }
}
pub fn injectable(m: &ModelSpec) -> Vec<String> {
    let mut v: Vec<String> = model::custom_entities(m).iter().map(|e| e.name.to_string()).collect();
    if m.builtin_gaz { v.extend(model::BUILTIN_GAZ.iter().map(|e| e.name.to_string())); }
    v
}
pub fn inject(r: &mut Rng, m: &ModelSpec, ents: &[String]) -> Op {
    let _ = m;
    let k = r.geometric(3);
    let mut pick: Vec<String> = ents.to_vec();
    r.shuffle(&mut pick);
    pick.truncate(k);
    let mut values = vec![];
    for e in pick { for _ in 0..r.geometric(6) { values.push((e.clone(), inj_value(r, &e))); } }
    r.shuffle(&mut values);
    Op::Inject { values, vanilla: r.chance(1, 3), shared: false }
}
/// Injections which are given resources loaded before, as services that inject often do.
fn with_resources(r: &mut Rng, s: &mut Spec) {
    s.setup.push(Op::LoadFillers);
    for l in s.threads.iter_mut() { for o in l { if let Op::Inject { shared, .. } = o { *shared = r.chance(2, 3); } } }
}
fn c10_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C10", r, seed);
    let ents = injectable(&s.model);
    if r.chance(1, 2) { for _ in 0..r.geometric(3) { let o = inject(r, &s.model, &ents); s.pre.push(o); } }
    s.pre.push(Op::Fp);
    let inj = inject(r, &s.model, &ents);
    s.threads = vec![vec![inj.clone()]];
    if r.chance(1, 4) { with_resources(r, &mut s); }
    s.post = vec![Op::Fp, inj, Op::Fp];
    s
}
fn c10_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    let mut pts: Vec<u64> = (0..c.mutations).collect();
    r.shuffle(&mut pts);
    (0..n.min(c.mutations as usize)).map(|i| {
        let mut p = s.clone();
        p.prop = "C10".into();
        let kind = if r.chance(1, 2) { FaultKind::CrashTorn } else { FaultKind::Crash };
        let power = r.chance(1, 3);
        if power { p.knobs.insert("power".into(), (r.next() % 1_000_000 + 1) as i64); }
        if !power || r.chance(5, 6) { p.fs_faults.push(FsFault { class: None, nth: pts[i], kind, sticky: false, tid: None }); }
        if r.chance(1, 5) { if let Some(pt) = fs_point(r, c, |c| c.mutating()) { let k = kind_for(r, pt.1, false); p.fs_faults.push(fault_at(r, pt, 1, k, false)); } }
        p
    }).collect()
}
fn fp(s: &str) -> Option<BTreeMap<String, Value>> { s.strip_prefix("OK ").and_then(|j| serde_json::from_str(j).ok()) }
fn fp_ref(spec: &Spec, ctx: &mut Ctx, pre: Vec<Op>, threads: Vec<Vec<Op>>) -> Option<BTreeMap<String, Value>> {
    let r = ctx.reference(&spec.calm(pre, threads, vec![Op::Fp]));
    r.post().first().and_then(|x| fp(&x.r))
}
fn first_diff(a: &BTreeMap<String, Value>, b: &BTreeMap<String, Value>) -> String {
    for (e, x) in a {
        let y = b.get(e).cloned().unwrap_or(Value::Null);
        if *x != y { let (p, q) = (x.as_array().cloned().unwrap_or_default(), y.as_array().cloned().unwrap_or_default());
            for i in 0..p.len().max(q.len()) { if p.get(i) != q.get(i) { return format!("entity {}: {} instead of {}", e, p.get(i).unwrap_or(&Value::Null), q.get(i).unwrap_or(&Value::Null)); } } }
    }
    format!("entities {:?} instead of {:?}", a.keys().collect::<Vec<_>>(), b.keys().collect::<Vec<_>>())
}
/// Each entity of `got` must be as in one of the allowed states.
fn among(got: &BTreeMap<String, Value>, allowed: &[&BTreeMap<String, Value>]) -> Option<String> {
    for (e, x) in got { if !allowed.iter().any(|a| a.get(e) == Some(x)) { return Some(first_diff(&BTreeMap::from([(e.clone(), x.clone())]), &allowed.last().unwrap().iter().filter(|k| k.0 == e).map(|(k, v)| (k.clone(), v.clone())).collect())); } }
    None
}
/// (old, new) fingerprints of an injection spec
fn old_new(spec: &Spec, ctx: &mut Ctx) -> Result<(BTreeMap<String, Value>, BTreeMap<String, Value>), V> {
    let pre: Vec<Op> = spec.pre.iter().filter(|o| matches!(o, Op::Inject { .. })).cloned().collect();
    let old = fp_ref(spec, ctx, pre.clone(), vec![vec![]]);
    let new = fp_ref(spec, ctx, pre, spec.threads.clone());
    match (old, new) { (Some(a), Some(b)) => Ok((a, b)), (a, _) => Err(V { class: "baseline".into(), detail: format!("injecting without faults leaves a model that does not load (old state readable: {})", a.is_some()) }) }
}
fn c10_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> { injected_judge(spec, raw, ctx, false) }
fn c11_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> { injected_judge(spec, raw, ctx, true) }
fn injected_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx, report: bool) -> Option<V> {
    let (old, new) = match old_new(spec, ctx) { Ok(x) => x, Err(e) => return Some(e) };
    let post = raw.post();
    let m = raw.main();
    let what = format!("faults {:?} at {:?}", m.fired, m.fired_at);
    let got = match fp(&post[0].r) { Some(g) => g, None => return v("unloadable", format!("after the injection ({}) the model no longer loads: {}", what, post[0].r)) };
    if let Some(d) = among(&got, &[&old, &new]) { return v("mixture", format!("after the injection ({}): {}", what, d)); }
    if let Some(rec) = m.recs.first().and_then(|l| l.first()) {
        if report && rec.r.starts_with("OK") && got != new { return v("false success", format!("the injection reported success ({}) but {}", what, first_diff(&got, &new))); }
        if m.fired.is_empty() && !rec.r.starts_with("OK") { return v("refused", format!("a valid injection failed without any fault: {}", rec.r)); }
    }
    if !post[1].r.starts_with("OK") { return v("retry", format!("repeating the injection after {} failed: {}", what, post[1].r)); }
    match fp(&post[2].r) { Some(g) if g == new => None, Some(g) => v("retry", format!("after repeating the injection: {}", first_diff(&g, &new))), None => v("unloadable", format!("after repeating the injection the model does not load: {}", post[2].r)) }
}
fn c11_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        p.prop = "C11".into();
        for _ in 0..r.geometric(2) {
            let mutating = r.chance(3, 4);
            if let Some(pt) = fs_point(r, c, |c| c.mutating() == mutating) {
                let k = if r.chance(1, 8) && matches!(pt.1, Class::Read | Class::Write) { kind_for(r, pt.1, true) } else { kind_for(r, pt.1, false) };
                let st = k != FaultKind::Eintr && r.chance(1, 3);
                p.fs_faults.push(fault_at(r, pt, 1, k, st));
            }
        }
        p
    }).collect()
}

// ---- C12 ----
fn c12_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C12", r, seed);
    let mut ents = injectable(&s.model);
    r.shuffle(&mut ents);
    ents.truncate(3);
    let mut l = vec![Op::Snap];
    for _ in 0..2 + r.below(4) {
        let mut o = inject(r, &s.model, &ents);
        if let Op::Inject { values, .. } = &mut o {
            if r.chance(1, 4) { let bad = r.pick(&["NoSuchEntity", "snips/number", "snips/datetime", "snips/musicTrack", "snips/region", "room2", "snips/nothing"]).to_string(); let at = r.below(values.len() + 1); values.insert(at, (bad, "x".into())); }
            if r.chance(1, 3) { let v0 = values[0].clone(); let other = inj_value(r, &v0.0); values.push((v0.0.clone(), v0.1.to_uppercase())); values.push((v0.0, other)); }
            if r.chance(1, 15) { values.clear(); }
        }
        l.push(o); l.push(Op::Snap); l.push(Op::Fp);
    }
    s.threads = vec![l];
    // an engine loaded before the injections stays alive
    if r.chance(1, 2) { s.setup = vec![Op::Load { e: 0, dir: "model".into() }]; }
    s
}
fn c12_plans(s: &Spec, _c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| { let mut p = s.clone(); p.hash_seed = hash_seed(r);
        // the same injections in another order
        let mut inj: Vec<Op> = s.threads[0].iter().filter(|o| matches!(o, Op::Inject { .. })).cloned().collect();
        r.shuffle(&mut inj);
        let mut l = vec![Op::Snap]; for o in inj { l.push(o); l.push(Op::Snap); l.push(Op::Fp); }
        p.threads = vec![l]; p }).collect()
}
/// What the parser files should contain, by the documented meaning of an injection.
#[derive(Clone, Default)]
pub struct InjModel(pub BTreeMap<String, Vec<(String, String)>>);
impl InjModel {
    pub fn apply(&mut self, m: &ModelSpec, values: &[(String, String)], vanilla: bool) -> bool {
        let ok = injectable(m);
        if values.iter().any(|v| !ok.contains(&v.0)) { return false; }
        let mut by: BTreeMap<&str, Vec<(String, String)>> = BTreeMap::new();
        for (e, x) in values { by.entry(e).or_default().push((x.to_lowercase(), x.clone())); }
        for (e, mut vals) in by {
            if !e.starts_with("snips/") { vals = match m.usage { 1 => vals, 0 => vals.iter().map(|(a, b)| (model::stem_value(a), b.clone())).collect(), _ => { let mut x: Vec<(String, String)> = vec![]; let st: Vec<(String, String)> = vals.iter().map(|(a, b)| (model::stem_value(a), b.clone())).collect(); for p in vals.into_iter().chain(st) { if !x.contains(&p) { x.push(p); } } x } }; }
            vals.retain(|x| !x.0.trim().is_empty());
            let l = self.0.entry(e.to_string()).or_default();
            if vanilla { l.clear(); }
            vals.append(l);
            *l = vals;
        }
        true
    }
}
fn c12_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let recs = &raw.main().recs[0];
    let mut st = InjModel::default();
    let mut snap = String::new();
    let mut accepted = true;
    for (op, rec) in spec.threads[0].iter().zip(recs) {
        match op {
            Op::Inject { values, vanilla, .. } => {
                accepted = st.apply(&spec.model, values, *vanilla);
                if accepted != rec.r.starts_with("OK") { return v("acceptance", format!("{} should have been {} but gave {}", serde_json::to_string(op).unwrap(), if accepted { "accepted" } else { "refused" }, rec.r)); }
            }
            Op::Snap => { if !accepted && rec.r != snap { return v("refused", format!("a refused injection changed the disk: {} became {}", snap, rec.r)); } snap = rec.r.clone(); }
            Op::Fp => {
                let put = Op::Put { lists: st.0.iter().map(|(e, l)| (e.clone(), l.clone())).collect() };
                let mut s = spec.calm(vec![put], vec![vec![]], vec![Op::Fp]);
                s.setup.clear();
                s.hash_seed = 1;
                let want = match ctx.reference(&s).post().first().and_then(|x| fp(&x.r)) { Some(w) => w, None => return None };
                match fp(&rec.r) { None => return v("unloadable", format!("after {} the model does not load: {}", serde_json::to_string(op).unwrap(), rec.r)), Some(g) => if g != want { return v("values", format!("after the history {}: {}", serde_json::to_string(&spec.threads[0]).unwrap(), first_diff(&g, &want))); } }
            }
            _ => {}
        }
    }
    None
}

// ---- C13 ----
pub fn ffi(r: &mut Rng, m: &ModelSpec, tx: &[String], h: usize, hold: bool) -> Op {
    loop { let q = query(r, m, tx); if !matches!(q, Op::Extract { .. }) { return Op::Ffi { h, call: Box::new(q), json: r.chance(1, 2), plain: r.chance(1, 2), hold }; } }
}
fn c13_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C13", r, seed);
    s.cap = cap(r);
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }, Op::FfiCreate { h: 0, zip: None, dir: "model".into() }, Op::FfiCreate { h: 1, zip: None, dir: "model".into() }];
    let n = 1 + r.below(3);
    let tx = texts(r, &s.model, n);
    for t in 0..2 + r.below(3) {
        let mut l = vec![];
        let own = 10 + t;
        if r.chance(1, 6) { l.push(Op::FfiCreate { h: own, zip: if r.chance(1, 2) { Some(some_zip(r)) } else { None }, dir: if r.chance(1, 4) { "nowhere".into() } else { "model".into() } }); }
        for _ in 0..1 + r.below(4) {
            let h = if !l.is_empty() && r.chance(1, 3) { own } else { r.below(2) };
            l.push(match r.below(8) { 0 => Op::FfiBad { kind: r.below(12) as u32, h, text: tx[0].clone() }, 1 => if r.chance(1, 2) { Op::FfiVersion { hold: false } } else { Op::FfiLastError }, 2 => Op::Ffi { h, call: Box::new(Op::Parse { text: tx[0].clone(), wl: Some(vec![format!("Unknown{}", t)]), bl: None, ia: 0, sa: 0, e: 0 }), json: r.chance(1, 2), plain: true, hold: false },
                _ => { let hold = r.chance(1, 6); ffi(r, &s.model, &tx, h, hold) } });
            if r.chance(1, 6) { l.push(Op::Release { k: r.below(5) }); }
        }
        if matches!(l[0], Op::FfiCreate { .. }) { l.push(Op::FfiDestroy { h: own }); }
        s.threads.push(l);
    }
    for _ in 0..2 { let h = r.below(2); let q = ffi(r, &s.model, &tx, h, false); s.post.push(q); }
    s.post.push(Op::FfiLastError);
    s
}
fn json_of(s: &str) -> Value { s.strip_prefix("OK ").and_then(|j| serde_json::from_str(j).ok()).unwrap_or(Value::Null) }
fn c13_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    for (i, t, k, op, rec) in each(spec, raw) {
        let at = format!("phase {} client {} operation {}", i, t, k);
        match op {
            Op::Ffi { h, call, .. } => {
                if *h >= 10 && rec.r == "NOHANDLE" { continue; }
                let lib = ctx.alone(spec, call, spec.now);
                if rec.r.starts_with("OK") != lib.starts_with("OK") { return v("outcome", diff(&at, op, &rec.r, &lib)); }
                if rec.r.starts_with("OK") { if json_of(&rec.r) != json_of(&lib) || json_of(&rec.r) == Value::Null { return v("answer", diff(&at, op, &rec.r, &lib)); } }
                else { let mut o = op.clone(); if let Op::Ffi { h, .. } = &mut o { *h = 0; } let want = ctx.alone(spec, &o, spec.now); if rec.r != want { return v("error text", diff(&at, op, &rec.r, &want)); }
                    if let Some(txt) = lib.strip_prefix("ERR ") { let first = txt.split(" | ").next().unwrap_or(""); if !rec.r.contains(first) { return v("error text", format!("{}: the error text {:?} does not report {:?}", at, rec.r, first)); } } }
            }
            Op::FfiVersion { .. } => if rec.r != format!("OK {}", snips_nlu_lib::MODEL_VERSION) { return v("version", format!("{}: {}", at, rec.r)); },
            Op::FfiBad { .. } => {
                if !rec.r.starts_with("ERR") { return v("outcome", format!("{}: {} did not fail: {}", at, serde_json::to_string(op).unwrap(), rec.r)); }
                let want = ctx.alone(spec, op, spec.now);
                if rec.r != want && !matches!(op, Op::FfiBad { h, .. } if *h >= 10) { return v("error text", diff(&at, op, &rec.r, &want)); }
            }
            Op::FfiLastError => { let want = ctx.alone(spec, op, spec.now); if rec.r != want { return v("error text", diff(&at, op, &rec.r, &want)); } }
            Op::FfiCreate { dir, zip, .. } => if rec.r.starts_with("OK") != (dir == "model" || zip.is_some()) { return v("outcome", format!("{}: creating an engine gave {}", at, rec.r)); } else if !rec.r.starts_with("OK") { let want = ctx.alone(spec, op, spec.now); if rec.r != want { return v("error text", diff(&at, op, &rec.r, &want)); } },
            Op::FfiDestroy { .. } => if !rec.r.starts_with("OK") && rec.r != "NOHANDLE" { return v("outcome", format!("{}: destroying a handle gave {}", at, rec.r)); },
            _ => {}
        }
    }
    None
}

// ---- C14 ----
fn c14_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C14", r, seed);
    s.cap = cap(r);
    let tx = texts(r, &s.model, 2);
    for t in 0..r.geometric(3) {
        let h = t;
        let zip = r.chance(1, 5);
        let mut l = vec![Op::FfiCreate { h, zip: if zip { Some(some_zip(r)) } else { None }, dir: "model".into() }];
        if r.chance(1, 4) { let mut z = some_zip(r); z.trunc = Some(r.below(1000) as u32); l.push(Op::FfiCreate { h: 20 + t, zip: Some(z), dir: "model".into() }); }
        if r.chance(1, 4) { l.push(Op::FfiCreate { h: 30 + t, zip: None, dir: "nowhere".into() }); }
        for _ in 0..2 + r.below(8) {
            l.push(match r.below(10) { 0 => Op::FfiBad { kind: r.below(12) as u32, h, text: tx[0].clone() }, 1 => Op::FfiVersion { hold: r.chance(1, 2) }, 2 => Op::FfiLastError, 3 | 4 => Op::Release { k: r.below(8) }, _ => { let hold = r.chance(1, 2); ffi(r, &s.model, &tx, h, hold) } });
        }
        if r.chance(1, 2) { l.push(Op::FfiDestroy { h }); if r.chance(1, 2) { l.push(Op::Release { k: 0 }); } }
        s.threads.push(l);
    }
    s.knobs.insert("repeat".into(), 3);
    s.post = vec![];
    s
}
fn c14_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        if s.threads.len() > 1 { schedule(&mut p, r, c); }
        if r.chance(1, 4) { let kind = 1 + r.below(3) as u32; if c.stub_calls[kind as usize] > 0 { p.stub_faults.push(StubFault { kind, nth: r.next() % c.stub_calls[kind as usize] }); } }
        if r.chance(1, 4) { if let Some(pt) = fs_point(r, c, |c| !matches!(c, Class::Remove | Class::Dir)) { let k = kind_for(r, pt.1, false); p.fs_faults.push(fault_at(r, pt, s.threads.len(), k, false)); } }
        if r.chance(1, 3) { let k = r.below(6); let t = r.below(p.threads.len()); p.threads[t].insert(1, Op::Release { k }); }
        p
    }).collect()
}
pub fn repeat_judge(raw: &Raw, what: &str) -> Option<V> {
    let mains: Vec<&crate::runner::PhaseRaw> = raw.phases.iter().skip(1).collect();
    // phases: main, cleanup, main, cleanup, main, cleanup, post
    if mains.len() < 6 { return None; }
    let (a, b) = (mains[3].live, mains[5].live);
    if a != b { return v("leak", format!("{}: live memory went from {:?} to {:?} (blocks, bytes) over one more repetition of the same history", what, a, b)); }
    if let Some(f) = mains.iter().find(|p| !p.fds.is_empty()) { return v("fd", format!("file descriptors left open: {:?}", f.fds)); }
    None
}
fn c14_judge(_s: &Spec, raw: &Raw, _ctx: &mut Ctx) -> Option<V> { repeat_judge(raw, "all objects had been destroyed") }

// ---- C16 ----
fn c16_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C16", r, seed);
    let ents = injectable(&s.model);
    if r.chance(1, 3) { let o = inject(r, &s.model, &ents); s.pre.push(o); }
    let n = r.geometric(2);
    let l: Vec<Op> = (0..n).map(|_| inject(r, &s.model, &ents)).collect();
    s.threads.push(l);
    for t in 0..r.geometric(2) { let k = r.geometric(2); s.threads.push((0..k).map(|_| if r.chance(3, 4) { Op::Fp } else { Op::Load { e: t, dir: "model".into() } }).collect()); }
    s.post = vec![Op::Fp];
    s
}
fn c16_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let inj = spec.threads[0].clone();
    let mut states = vec![];
    for k in 0..=inj.len() { match fp_ref(spec, ctx, spec.pre.clone(), vec![inj[..k].to_vec()]) { Some(f) => states.push(f), None => return v("baseline", "injecting without interference leaves a model that does not load") } }
    for (k, rec) in raw.main().recs[0].iter().enumerate() { if !rec.r.starts_with("OK") { return v("disturbed", format!("injection {} failed while only loads went on beside it: {}", k, rec.r)); } }
    let all: Vec<&BTreeMap<String, Value>> = states.iter().collect();
    for (t, l) in raw.main().recs.iter().enumerate().skip(1) { for (k, rec) in l.iter().enumerate() {
        if let Some(g) = fp(&rec.r) { if let Some(d) = among(&g, &all) { return v("mixture", format!("client {} load {}: {}", t, k, d)); } }
    } }
    match fp(&raw.post()[0].r) { Some(g) if g == *states.last().unwrap() => None, Some(g) => v("lost", first_diff(&g, states.last().unwrap())), None => v("unloadable", raw.post()[0].r.clone()) }
}

// ---- C17 ----
fn c17_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C17", r, seed);
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }];
    s.pre = vec![Op::Snap, if r.chance(1, 3) { Op::LoadZip { e: 1, zip: some_zip(r) } } else { Op::Load { e: 1, dir: "model".into() } }, Op::Snap];
    let n = 1 + r.below(3);
    let tx = texts(r, &s.model, n);
    for _ in 0..r.geometric(2) { let k = 2 + r.below(4); s.threads.push((0..k).map(|_| { let e = r.below(2); query(r, &s.model, &tx).with_engine(e) }).collect()); }
    s.post = vec![Op::Snap];
    s
}
fn c17_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        if s.threads.len() > 1 { schedule(&mut p, r, c); }
        match r.below(4) {
            0 => {}
            1 => for cl in [Class::Open, Class::Create, Class::Read, Class::Write, Class::Mkdir, Class::Rename, Class::Remove, Class::Stat, Class::Dir] { p.fs_faults.push(FsFault { class: Some(cl), nth: 0, kind: FaultKind::Eio, sticky: true, tid: None }); },
            2 => { let t = r.below(p.threads.len()); let at = r.below(p.threads[t].len() + 1); let d = if r.chance(1, 2) { Damage::RemoveAll } else { some_damage(r) }; p.threads[t].insert(at, Op::Damage { d }); }
            _ => { let ents = injectable(&p.model); let o = inject(r, &p.model, &ents); if r.chance(1, 2) { p.threads.push(vec![o]); schedule(&mut p, r, c); } else { let t = r.below(p.threads.len()); let at = r.below(p.threads[t].len()); p.threads[t].insert(at, o); } }
        }
        p
    }).collect()
}
fn c17_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let pre = &raw.pre().recs[0];
    if !pre[1].r.starts_with("OK") { return v("load", format!("a valid model does not load: {}", pre[1].r)); }
    if pre[0].r != pre[2].r { return v("modified", format!("loading changed the model directory: {} became {}", pre[0].r, pre[2].r)); }
    if let Some(m) = raw.pre().mutated.iter().find(|m| !m.starts_with("/tmp")) { return v("modified", format!("loading modified {}", m)); }
    if !raw.pre().escapes.is_empty() { return v("modified", format!("loading tried to modify {:?}", raw.pre().escapes)); }
    let quiet = spec.threads.iter().flatten().all(|o| is_call(o));
    if quiet && raw.main().fs_total > 0 { return v("file access", format!("{} file operations while serving calls (outside reads {:?}, modified {:?})", raw.main().fs_total, raw.main().outside_reads, raw.main().mutated)); }
    if quiet && raw.post()[0].r != pre[0].r { return v("modified", "using the engine changed the model directory"); }
    for (_, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) { continue; }
        let want = ctx.alone(spec, &op.with_engine(0), spec.now);
        if rec.r != want { return v("answer", diff(&format!("client {} operation {} after {:?}", t, k, raw.main().fired), op, &rec.r, &want)); }
    }
    None
}

// ---- C18 ----
fn c18_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C18", r, seed);
    s.knobs.insert("growth".into(), 1);
    let small = r.chance(19, 20);
    let cap = if small { if r.chance(1, 3) { r.range(2, 40) as usize } else { r.geometric(40).max(2) } } else { 1000 };
    s.cap = if small { Some(cap) } else { None };
    let defs = s.model.intent_defs();
    let pick = |r: &mut Rng| { let d = *r.pick(&defs); let t = if r.chance(1, 2) { *r.pick(d.templates) } else { *r.pick(d.templates) }; (d.name.to_string(), model::fill(r, d.name, t)) };
    let forms: Vec<Op> = (0..if small { r.geometric(3) } else { 1 }).map(|_| {
        let (intent, text) = pick(r);
        match r.below(5) { 0 => Op::Intents { text, e: 0 }, 1 => Op::Slots { text, intent, sa: 1, e: 0 }, 2 => Op::Parse { text, wl: Some(vec!["Nope".into()]), bl: None, ia: 0, sa: 0, e: 0 }, 3 => Op::Parse { text, wl: None, bl: None, ia: 2, sa: 1, e: 0 }, _ => Op::Parse { text, wl: None, bl: None, ia: 0, sa: 0, e: 0 } }
    }).collect();
    s.knobs.insert("forms".into(), forms.len() as i64);
    s.threads = vec![growth_ops(&forms, cap, small)];
    s
}
/// A load, a warm-up that fills caches of `cap` entries, and the live memory at equal distances after it.
fn growth_ops(forms: &[Op], cap: usize, small: bool) -> Vec<Op> {
    let k = forms.len();
    let unit = |m: usize| (m + k - 1) / k * k;
    let mut n = 0usize;
    let mut make = |m: usize| -> Vec<Op> { (0..m).map(|i| { n += 1; let mut o = forms[i % k].clone(); if let Some(t) = o.text_mut() { *t = format!("{} zz{:06}", t, n); } o }).collect() };
    let more = unit(if small { (cap + 5).max(70) } else { cap + 5 });
    let mut l = vec![Op::Load { e: 0, dir: "model".into() }];
    l.extend(make(unit(cap * 2 * k + 8))); l.push(Op::Mem);
    for _ in 0..if small { 5 } else { 2 } { l.extend(make(more)); l.push(Op::Mem); }
    l
}
fn c18_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    // load - use - drop cycles, some loads failing
    (0..n).map(|_| {
        let mut p = s.clone();
        p.knobs.clear();
        p.knobs.insert("repeat".into(), 3);
        p.cap = None;
        let tx = texts(r, &s.model, 3);
        p.threads = vec![];
        for t in 0..r.geometric(2) {
            let mut l = vec![if r.chance(1, 5) { Op::LoadZip { e: t, zip: some_zip(r) } } else { Op::Load { e: t, dir: "model".into() } }];
            for _ in 0..2 + r.below(4) { l.push(query(r, &p.model, &tx).with_engine(t)); }
            if r.chance(1, 4) { l.push(Op::Load { e: 40 + t, dir: "nowhere".into() }); }
            if r.chance(1, 2) { l.push(Op::Drop { e: t }); }
            p.threads.push(l);
        }
        if r.chance(1, 2) { let (class, nth) = { let v: Vec<_> = c.fs_points.iter().filter(|q| matches!(q.1, Class::Open | Class::Read)).collect(); if v.is_empty() { (Class::Open, 0) } else { let q = *r.pick(&v); (q.1, q.3) } }; p.fs_faults.push(FsFault { class: Some(class), nth, kind: FaultKind::Eio, sticky: false, tid: Some(0) }); }
        if r.chance(1, 3) { p.stub_faults.push(StubFault { kind: 1 + r.below(3) as u32, nth: r.below(6) as u64 }); }
        p
    }).collect()
}
fn c18_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    if spec.knob("growth") == 0 { return repeat_judge(raw, "every engine had been dropped"); }
    let recs = &raw.main().recs[0];
    if let Some(r) = recs.first() { if !r.r.starts_with("OK") { return v("load", r.r.clone()); } }
    let (mem, grew) = growth(&spec.threads[0], recs, spec.cap);
    if !grew { return None; }
    if spec.cap.is_some() {
        // A cache of another kind may not have heard of the small capacity: with the shipped one it must stop growing.
        let k = spec.knob("forms").max(1) as usize;
        let forms: Vec<Op> = spec.threads[0].iter().skip(1).take(k).map(|o| { let mut o = o.clone(); if let Some(t) = o.text_mut() { if let Some(i) = t.rfind(" zz") { t.truncate(i); } } o }).collect();
        let mut big = spec.clone();
        big.cap = None;
        big.threads = vec![growth_ops(&forms, 1000, false)];
        let r = ctx.reference(&big);
        if r.phases.len() > 1 && !growth(&big.threads[0], &r.main().recs[0], None).1 { return None; }
    }
    v("growth", format!("live memory kept growing after warm-up: {:?} (blocks, bytes), about {} calls apart", mem, recs.len() / mem.len()))
}
fn growth(ops: &[Op], recs: &[crate::runner::Rec], cap: Option<usize>) -> (Vec<(i64, i64)>, bool) {
    let mem: Vec<(i64, i64)> = ops.iter().zip(recs).filter(|(o, _)| matches!(o, Op::Mem)).filter_map(|(_, r)| { let mut i = r.r.split(' ').skip(1).filter_map(|x| x.parse().ok()); Some((i.next()?, i.next()?)) }).collect();
    if mem.len() < 3 { return (mem, false); }
    // Cached answers may differ a little in size, and the tables behind the caches grow once or twice when they
    // fill up; growth with the number of calls may not happen.
    let cap = cap.unwrap_or(1000) as i64;
    // (with a cache of a thousand entries full of answers of several shapes the count also wanders by a few tens)
    let calls = ops.len() as i64 / mem.len() as i64;
    let blocks = mem.windows(2).all(|w| w[1].0 - w[0].0 > (calls / 10).max(4).min(if cap < 500 { 4 } else { i64::MAX }));
    let bytes = mem.last().unwrap().1 - mem[0].1 > 1000 + 150 * cap;
    (mem, blocks || bytes)
}

// ---- C19 ----
fn c19_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C19", r, seed);
    let mut ents = injectable(&s.model);
    r.shuffle(&mut ents);
    if r.chance(1, 3) { let o = inject(r, &s.model, &ents); s.pre.push(o); }
    let n = 2 + r.below(2);
    for t in 0..n {
        let mine: Vec<String> = ents.iter().enumerate().filter(|(i, _)| i % n == t).map(|(_, e)| e.clone()).collect();
        let k = r.geometric(2);
        let l: Vec<Op> = (0..k).map(|_| { let mut o = inject(r, &s.model, &mine); if r.chance(1, 2) { if let Op::Inject { values, .. } = &mut o { values.retain(|v| v.0 == mine[0]); if values.is_empty() { values.push((mine[0].clone(), "Zed".into())); } } } o }).collect();
        s.threads.push(l);
    }
    if r.chance(1, 2) { with_resources(r, &mut s); }
    s.post = vec![Op::Fp];
    for l in s.threads.clone() { s.post.extend(l); }
    s.post.push(Op::Fp);
    s
}
fn c19_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        schedule(&mut p, r, c);
        if r.chance(1, 2) {
            let t = r.below(s.threads.len());
            if r.chance(1, 2) { let m = c.mutations_by.get(t).cloned().unwrap_or(0); if m > 0 { p.fs_faults.push(FsFault { class: None, nth: r.next() % m, kind: if r.chance(1, 2) { FaultKind::Crash } else { FaultKind::CrashTorn }, sticky: false, tid: Some(t) }); } }
            else { let v: Vec<_> = c.fs_points.iter().filter(|q| q.0 == t).collect(); if !v.is_empty() { let q = *r.pick(&v); let k = kind_for(r, q.1, false); p.fs_faults.push(FsFault { class: Some(q.1), nth: q.2, kind: k, sticky: r.chance(1, 4), tid: Some(t) }); } }
        }
        p
    }).collect()
}
fn c19_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let old = match fp_ref(spec, ctx, spec.pre.clone(), vec![vec![]]) { Some(f) => f, None => return v("baseline", "the model does not load") };
    let mut allowed: BTreeMap<String, Vec<Value>> = old.iter().map(|(e, x)| (e.clone(), vec![x.clone()])).collect();
    let m = raw.main();
    let what = format!("faults {:?} at {:?}", m.fired, m.fired_at);
    for (t, l) in spec.threads.iter().enumerate() {
        // A successful injection must be visible; a failed or killed one may or may not be, and so each
        // subset of the uncertain ones (in order) gives an allowed state of the entities it names.
        let dead = killed(spec, raw, t);
        let own = spec.fs_faults.iter().find(|f| f.tid.map(|x| x == t).unwrap_or(true));
        let recs = &m.recs[t];
        let mut variants: Vec<Vec<Op>> = vec![vec![]];
        for (k, op) in l.iter().enumerate() {
            let sure = !dead && recs.get(k).map(|r| r.r.starts_with("OK")).unwrap_or(false);
            // With resources of its own an injection reads and writes nothing that the others change.
            if let (Op::Inject { shared: true, .. }, Some(rec), true) = (op, recs.get(k), own.is_none()) { if !rec.r.starts_with("OK") { return v("disturbed", format!("an injection which met no fault failed beside others into other entities ({}): {}", what, rec.r)); } }
            let mut next = vec![];
            for s in &variants { let mut with = s.clone(); with.push(op.clone()); next.push(with); if !sure { next.push(s.clone()); } }
            variants = next;
        }
        let ents: BTreeSet<String> = l.iter().flat_map(|o| if let Op::Inject { values, .. } = o { values.iter().map(|v| v.0.clone()).collect() } else { vec![] }).collect();
        let mut per: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for var in variants { if let Some(f) = fp_ref(spec, ctx, spec.pre.clone(), vec![var]) { for e in &ents { if let Some(x) = f.get(e) { per.entry(e.clone()).or_default().push(x.clone()); } } } }
        for (e, x) in per { allowed.insert(e, x); }
    }
    let got = match fp(&raw.post()[0].r) { Some(g) => g, None => return v("unloadable", format!("after concurrent injections ({}): {}", what, raw.post()[0].r)) };
    for (e, x) in &got { if !allowed.get(e).map(|a| a.contains(x)).unwrap_or(false) {
        let want: BTreeMap<String, Value> = BTreeMap::from([(e.clone(), allowed.get(e).and_then(|a| a.first().cloned()).unwrap_or(Value::Null))]);
        return v("lost", format!("after concurrent injections ({}): {}", what, first_diff(&BTreeMap::from([(e.clone(), x.clone())]), &want))); } }
    let post = raw.post();
    for r in &post[1..post.len() - 1] { if !r.r.starts_with("OK") { return v("retry", format!("repeating an injection afterwards failed: {}", r.r)); } }
    if fp(&post[post.len() - 1].r).is_none() { return v("unloadable", post[post.len() - 1].r.clone()); }
    None
}
