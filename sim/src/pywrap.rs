//! C41: the Python wrapper gives the library's answers.
use crate::ops::Op;
use crate::props::{self, each, v, V};
use crate::rng::Rng;
use crate::rt::{Preempt, StepKind, StubFault};
use crate::runner::{Calib, Ctx, Raw, Spec};
use serde_json::Value;

fn call(r: &mut Rng, s: &Spec, tx: &[String], h: usize) -> Op {
    loop {
        let mut q = props::query(r, &s.model, tx);
        if let Op::Parse { wl, bl, .. } = &mut q { if r.chance(1, 12) { *wl = Some(vec![]); } if r.chance(1, 12) { *bl = Some(vec![]); } }
        if matches!(q, Op::Extract { .. }) { continue; }
        // what the wrapper is documented to ask for when it is not told
        let defaults = r.chance(1, 3);
        if defaults { match &mut q { Op::Parse { ia, sa, .. } => { *ia = 0; *sa = 5; } Op::Slots { sa, .. } => *sa = 5, _ => {} } }
        return Op::Py { h, call: Box::new(q), defaults };
    }
}
fn create(r: &mut Rng, h: usize) -> Op { Op::PyCreate { h, zip: if r.chance(1, 2) { Some(props::some_zip(r)) } else { None }, dir: "model".into() } }
pub fn c41_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = props::base("C41", r, seed);
    s.cap = props::cap(r);
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }, Op::PyCreate { h: 0, zip: None, dir: "model".into() }, Op::PyCreate { h: 1, zip: Some(props::some_zip(r)), dir: "model".into() }];
    let n = 1 + r.below(3);
    let tx: Vec<String> = (0..n).map(|_| crate::model::sentence(r, &s.model)).collect();
    let repeat = r.chance(1, 3);
    if repeat { s.knobs.insert("repeat".into(), 3); }
    for t in 0..if repeat { r.geometric(3) } else { 2 + r.below(3) } {
        let own = 10 + t;
        let mut l = vec![];
        let has_own = repeat || r.chance(1, 4);
        if has_own { l.push(create(r, own)); }
        for _ in 0..1 + r.below(5) {
            let h = if has_own && (repeat || r.chance(1, 2)) { own } else { r.below(2) };
            l.push(match r.below(12) {
                0 => Op::PyBad { kind: r.below(6) as u32, h, text: tx[0].clone() },
                1 => Op::Py { h, call: Box::new(Op::Parse { text: tx[0].clone(), wl: Some(vec![format!("Unknown{}", t)]), bl: None, ia: 0, sa: 5, e: 0 }), defaults: true },
                2 => { let mut z = props::some_zip(r); z.trunc = Some(r.below(1000) as u32); Op::PyCreate { h: 20 + t, zip: Some(z), dir: "model".into() } }
                3 => Op::PyCreate { h: 30 + t, zip: None, dir: format!("nowhere{}", t) },
                _ => call(r, &s, &tx, h),
            });
        }
        if has_own && r.chance(1, 2) { l.push(Op::PyDrop { h: own }); }
        s.threads.push(l);
    }
    if !repeat { for _ in 0..2 { let h = r.below(2); let q = call(r, &s, &tx, h); s.post.push(q); } }
    s
}
pub fn c41_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|_| {
        let mut p = s.clone();
        if s.threads.len() > 1 {
            props::schedule(&mut p, r, c);
            // the wrapper's own lines are steps of the second kind: few beside the steps inside the library
            if r.chance(1, 2) && c.b > 0 { for _ in 0..1 + r.below(4) { p.preempts.push(Preempt { kind: StepKind::B, at: 1 + r.next() % c.b, pick: r.below(3) as u32 }); } }
        }
        if r.chance(1, 4) { let kind = 1 + r.below(3) as u32; if c.stub_calls[kind as usize] > 0 { p.stub_faults.push(StubFault { kind, nth: r.next() % c.stub_calls[kind as usize] }); } }
        p
    }).collect()
}
fn json(s: &str) -> Option<Value> { s.strip_prefix("OK ").and_then(|j| serde_json::from_str(j).ok()) }
pub fn c41_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let repeat = spec.knob("repeat") > 1;
    for (i, t, k, op, rec) in each(spec, raw) {
        if repeat && i % 2 == 0 { continue; }
        let at = format!("phase {} client {} operation {}", i, t, k);
        if rec.r == "NOPYTHON" { return None; }
        if rec.r == "NOHANDLE" { continue; }
        let failed = rec.r.starts_with("ERR");
        match op {
            Op::Py { call, .. } => {
                let lib = ctx.alone(spec, call, spec.now);
                if rec.f > 0 && failed { if !rec.r.starts_with("ERR ValueError: ") { return v("exception", format!("{}: an injected failure became {}", at, rec.r)); } continue; }
                if rec.f > 0 { continue; }
                if failed == lib.starts_with("OK") { return v("outcome", props::diff(&at, op, &rec.r, &lib)); }
                if !failed { if json(&rec.r).is_none() || json(&rec.r) != json(&lib) { return v("answer", props::diff(&at, op, &rec.r, &lib)); } continue; }
                let first = lib.strip_prefix("ERR ").unwrap_or("").split(" | ").next().unwrap_or("").to_string();
                if !rec.r.starts_with("ERR ValueError: ") || !rec.r.contains(&first) { return v("exception", format!("{}: {} raised {:?}, which does not report {:?}", at, serde_json::to_string(op).unwrap(), rec.r, first)); }
                let mut o = op.clone();
                if let Op::Py { h, .. } = &mut o { *h = 0; }
                let want = ctx.alone(spec, &o, spec.now);
                if rec.r != want { return v("exception", props::diff(&at, op, &rec.r, &want)); }
            }
            Op::PyCreate { zip, dir, .. } => {
                let works = zip.as_ref().map(|z| z.trunc.is_none()).unwrap_or(dir == "model");
                if rec.f == 0 && works && failed { return v("outcome", format!("{}: creating an engine gave {}", at, rec.r)); }
                if zip.is_none() && !works && !failed { return v("outcome", format!("{}: an engine was made out of nothing", at)); }
                if failed && !rec.r.starts_with("ERR ValueError: ") { return v("exception", format!("{}: creating an engine raised {}", at, rec.r)); }
                // the path or the cause names what this client asked for
                if failed && rec.f == 0 && !zip.is_some() { let want = ctx.alone(spec, op, spec.now); if rec.r != want { return v("exception", props::diff(&at, op, &rec.r, &want)); } }
            }
            Op::PyBad { kind, h, .. } => {
                if !failed { return v("outcome", format!("{}: {} did not raise", at, serde_json::to_string(op).unwrap())); }
                let mut o = op.clone();
                if let (Op::PyBad { h, .. }, true) = (&mut o, *h >= 10) { *h = 0; }
                let want = ctx.alone(spec, &o, spec.now);
                if rec.r != want { return v("exception", props::diff(&at, op, &rec.r, &want)); }
                let class = if matches!(kind % 6, 1 | 2) { "ERR TypeError: " } else { "ERR ValueError: " };
                if !rec.r.starts_with(class) { return v("exception", format!("{}: {} raised {}", at, serde_json::to_string(op).unwrap(), rec.r)); }
            }
            Op::PyDrop { .. } => if failed { return v("outcome", format!("{}: giving an engine up gave {}", at, rec.r)); },
            _ => {}
        }
    }
    if repeat { return props::repeat_judge(raw, "the wrapper's objects had gone"); }
    None
}
