//! C20: several engines of different models live in one process, come and go; each answers as when it is the only one.
use crate::model::ModelSpec;
use crate::ops::Op;
use crate::props::*;
use crate::rng::Rng;
use crate::runner::{Ctx, Raw, Spec};
use std::collections::BTreeMap;

/// A model which differs from another one in some respects only.
fn relative(r: &mut Rng, m: &ModelSpec) -> ModelSpec {
    let mut x = ModelSpec::gen(r);
    if r.chance(1, 2) { x.vary = r.next() >> 12; }
    if r.chance(1, 3) { return x; }
    macro_rules! keep { ($($f:ident),*) => { $( if r.chance(2, 3) { x.$f = m.$f.clone(); } )* } }
    keep!(seed, intents, parsers, clusters, gazetteers, stop_words, builtin_gaz, threshold, tagging, ties, cooc, lang, classifier, cooc_mode, wide);
    if r.chance(2, 3) { x.lang = m.lang; }
    if r.chance(2, 3) { x.stems = m.stems; x.usage = m.usage; }
    x
}
fn model_of(s: &Spec, k: usize) -> &ModelSpec { if k == 0 { &s.model } else { &s.others[k - 1] } }
fn dir_of(k: usize) -> String { if k == 0 { "model".into() } else { format!("m{}", k) } }

/// A sentence as the model knows it, with up to two words added that its stop words may leave out.
fn said(r: &mut Rng, m: &ModelSpec) -> String {
    let t = m.templates();
    let (intent, tpl) = *r.pick(&t);
    let mut w: Vec<String> = crate::model::fill(r, intent, tpl).split(' ').map(|x| x.to_string()).collect();
    for _ in 0..r.below(3) { let j = r.below(w.len() + 1); w.insert(j, r.pick(crate::model::STOP_WORDS).to_string()); }
    w.join(" ")
}
pub fn c20_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C20", r, seed);
    s.cap = cap(r);
    if r.chance(1, 4) { s.model.vary = r.next() >> 12; }
    for _ in 0..1 + r.below(2) { let m = relative(r, &s.model); s.others.push(m); }
    let n = 1 + s.others.len();
    let mut tx: Vec<String> = vec![];
    for k in 0..n { let m = model_of(&s, k).clone(); tx.extend(texts(r, &m, 1)); for _ in 0..2 { tx.push(said(r, &m)); } }
    s.setup = vec![Op::Load { e: 0, dir: "model".into() }];
    let mut common = vec![(0usize, 0usize)];
    if r.chance(1, 2) { let k = r.below(n); s.setup.push(Op::Load { e: 1, dir: dir_of(k) }); common.push((1, k)); }
    let one = |r: &mut Rng, s: &Spec, live: &[(usize, usize)]| {
        let (e, k) = *r.pick(live);
        let m = model_of(s, k);
        if r.chance(1, 3) { let text = said(r, m); return match r.below(4) { 0 => Op::Intents { text, e }, 1 => Op::Slots { text, intent: some_intent(r, m), sa: r.below(3), e }, _ => Op::Parse { text, wl: None, bl: None, ia: r.below(3), sa: r.below(3), e } }; }
        query(r, m, &tx).with_engine(e)
    };
    for t in 0..r.geometric(3) {
        let mut l = vec![];
        let (mut live, mut handles): (Vec<(usize, usize)>, Vec<(usize, usize)>) = (common.clone(), vec![]);
        let mut next = 10 + 10 * t;
        for _ in 0..3 + r.below(8) {
            match r.below(10) {
                0 | 1 => {
                    let k = r.below(n);
                    match r.below(4) {
                        0 => { let mut zip = some_zip(r); zip.from = dir_of(k); l.push(Op::LoadZip { e: next, zip }); }
                        1 => { let dir = format!("d{}", t); l.push(Op::Update { dir: dir.clone(), k }); l.push(Op::Load { e: next, dir }); }
                        _ => l.push(Op::Load { e: next, dir: dir_of(k) }),
                    }
                    live.push((next, k));
                    next += 1;
                }
                2 => {
                    let k = r.below(n);
                    let zip = if r.chance(1, 3) { let mut z = some_zip(r); z.from = dir_of(k); Some(z) } else { None };
                    l.push(Op::FfiCreate { h: next, zip, dir: dir_of(k) });
                    handles.push((next, k));
                    next += 1;
                }
                3 if live.len() > common.len() => { let i = common.len() + r.below(live.len() - common.len()); let (e, _) = live.remove(i); l.push(Op::Drop { e }); }
                4 if !handles.is_empty() => { let i = r.below(handles.len()); let (h, _) = handles.remove(i); l.push(Op::FfiDestroy { h }); }
                5 | 6 if !handles.is_empty() => { let (h, k) = *r.pick(&handles); let m = model_of(&s, k).clone(); l.push(ffi(r, &m, &tx, h, false)); }
                7 if r.chance(1, 4) => l.push(Op::Load { e: 99, dir: "nowhere".into() }),
                // the same question to every engine
                8 | 9 => { let q = one(r, &s, &live); for (e, _) in &live { l.push(q.with_engine(*e)); } }
                _ => l.push(one(r, &s, &live)),
            }
        }
        for (h, _) in handles { if r.chance(1, 2) { l.push(Op::FfiDestroy { h }); } }
        s.threads.push(l);
    }
    let k = r.below(n);
    s.post = vec![one(r, &s, &common), Op::Load { e: 9, dir: dir_of(k) }];
    let mut live = common.clone();
    live.push((9, k));
    for _ in 0..6 + r.below(10) { let q = one(r, &s, &live); for (e, k) in &live { if *k > 0 || r.chance(1, 2) { s.post.push(q.with_engine(*e)); } } }
    s
}
/// Which model is behind an engine or handle: followed along the operations.
#[derive(Default, Clone)]
struct Known { engines: BTreeMap<usize, usize>, handles: BTreeMap<usize, usize>, dirs: BTreeMap<String, usize> }
impl Known {
    fn dir(&self, d: &str) -> Option<usize> {
        if let Some(k) = self.dirs.get(d) { return Some(*k); }
        if d == "model" || d.is_empty() { return Some(0); }
        d.strip_prefix('m').and_then(|x| x.parse().ok())
    }
    fn see(&mut self, op: &Op) {
        match op {
            Op::Update { dir, k } => { self.dirs.insert(dir.clone(), *k); }
            Op::Load { e, dir } => if let Some(k) = self.dir(dir) { self.engines.insert(*e, k); },
            Op::LoadZip { e, zip } => if let Some(k) = self.dir(&zip.from) { self.engines.insert(*e, k); },
            Op::FfiCreate { h, zip, dir } => if let Some(k) = self.dir(zip.as_ref().map(|z| &z.from).unwrap_or(dir)) { self.handles.insert(*h, k); },
            Op::Drop { e } => { self.engines.remove(e); }
            Op::FfiDestroy { h } => { self.handles.remove(h); }
            _ => {}
        }
    }
}
pub fn c20_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let mut start = Known::default();
    for o in &spec.setup { start.see(o); }
    let mut at: BTreeMap<usize, Known> = BTreeMap::new();
    let mut asked: Vec<(usize, Op, Op, &Op, &String, String)> = vec![];
    for (i, t, k, op, rec) in each(spec, raw) {
        let known = at.entry(if i == 1 { t } else { 1000 + i }).or_insert_with(|| start.clone());
        let place = format!("phase {} client {} operation {}", i, t, k);
        match op {
            Op::Load { dir, .. } if known.dir(dir).is_none() => if !rec.r.starts_with("ERR") { return v("load", format!("{}: loading a directory that does not exist gave {}", place, rec.r)); },
            Op::Load { .. } | Op::LoadZip { .. } | Op::FfiCreate { .. } | Op::Drop { .. } | Op::Update { .. } => if !rec.r.starts_with("OK") { return v("load", format!("{}: {} gave {}", place, serde_json::to_string(op).unwrap(), rec.r)); },
            Op::FfiDestroy { .. } if rec.r != "OK" => return v("load", format!("{}: {} gave {}", place, serde_json::to_string(op).unwrap(), rec.r)),
            _ => {}
        }
        known.see(op);
        let (model, q, setup) = if let Some(e) = op.engine() {
            match known.engines.get(&e) { Some(m) => (*m, op.with_engine(0), Op::Load { e: 0, dir: "model".into() }), None => continue }
        } else if let Op::Ffi { h, call, json, plain, hold } = op {
            match known.handles.get(h) { Some(m) => (*m, Op::Ffi { h: 0, call: call.clone(), json: *json, plain: *plain, hold: *hold }, Op::FfiCreate { h: 0, zip: None, dir: "model".into() }), None => continue }
        } else { continue };
        asked.push((model, setup, q, op, &rec.r, place));
    }
    // one reference process per model answers all its questions in turn; where it differs, the question is asked alone
    let mut groups: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (n, a) in asked.iter().enumerate() { groups.entry(format!("{} {}", a.0, serde_json::to_string(&a.1).unwrap())).or_default().push(n); }
    for g in groups.values() {
        let mut s = spec.calm(vec![], vec![], vec![]);
        s.model = model_of(spec, asked[g[0]].0).clone();
        s.others.clear();
        s.candidates.clear();
        s.setup = vec![asked[g[0]].1.clone()];
        let mut ops: Vec<(String, Op)> = vec![];
        for n in g { let k = serde_json::to_string(&asked[*n].2).unwrap(); if !ops.iter().any(|o| o.0 == k) { ops.push((k, asked[*n].2.clone())); } }
        let mut all = s.clone();
        all.threads = vec![ops.iter().map(|o| o.1.clone()).collect()];
        let reference = ctx.reference(&all);
        for n in g {
            let (model, _, q, op, got, place) = &asked[*n];
            let k = serde_json::to_string(q).unwrap();
            let i = ops.iter().position(|o| o.0 == k).unwrap();
            let want = reference.phases.get(1).and_then(|p| p.recs.first()).and_then(|v| v.get(i)).map(|x| x.r.clone());
            if want.as_ref() == Some(*got) { continue; }
            let want = ctx.alone(&s, q, spec.now);
            if **got != want { return v("answer", diff(&format!("{} on an engine of model {}", place, model), op, got, &want)); }
        }
    }
    None
}
