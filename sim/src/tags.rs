//! C33: the sequence model as a simulated party. The simulator decides which tags it answers; the slots that come out
//! are compared with those the tags encode, and what the sequence model is told about entity matches is decoded again.
use crate::answers::plans;
use crate::model::{self, ModelSpec};
use crate::ops::Op;
use crate::props::*;
use crate::rng::Rng;
use crate::rt::mix;
use crate::runner::{Ctx, Raw, Spec};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// Tags of `len` tokens of one slot (or match) in a scheme: the reference encoding.
pub fn encode(scheme: u8, len: usize) -> Vec<&'static str> {
    (0..len).map(|i| match scheme {
        0 => "I-",
        1 => if i == 0 { "B-" } else { "I-" },
        _ => if len == 1 { "U-" } else if i == 0 { "B-" } else if i + 1 == len { "L-" } else { "I-" },
    }).collect()
}
pub struct TagPlan { pub tags: Vec<String>, pub spans: Vec<(String, usize, usize)>, pub wild: bool }
/// What the simulated sequence model says about a sentence of `n` tokens. Even seeds: slots, encoded; odd seeds: any tags.
pub fn tag_plan(seed: u64, n: usize, scheme: u8, slots: &BTreeSet<String>, labels: &BTreeSet<String>) -> TagPlan {
    let mut r = Rng(mix(seed, n as u64));
    let wild = seed & 1 == 1;
    let mut tags = vec!["O".to_string(); n];
    let mut spans = vec![];
    let slots: Vec<&String> = slots.iter().collect();
    let labels: Vec<&String> = labels.iter().collect();
    if slots.is_empty() || labels.is_empty() { return TagPlan { tags, spans, wild }; }
    if wild {
        for t in tags.iter_mut() { if r.chance(3, 4) { *t = r.pick(&labels).to_string(); } }
    } else {
        let mut i = 0;
        while i < n {
            if r.chance(1, 3) { i += 1; continue; }
            let len = (1 + r.below(4)).min(n - i);
            let name = r.pick(&slots).to_string();
            for (k, p) in encode(scheme, len).into_iter().enumerate() { tags[i + k] = format!("{}{}", p, name); }
            spans.push((name, i, i + len));
            i += len;
            if scheme == 0 { i += 1; }
        }
    }
    TagPlan { tags, spans, wild }
}
fn slots_of(labels: &BTreeSet<String>) -> BTreeSet<String> { labels.iter().filter(|l| l.len() > 2).map(|l| l[2..].to_string()).collect() }
/// Asked by the stand-in of the tagger: which labels (by index) should it answer? 0: it is to decide itself.
#[no_mangle] pub unsafe extern "C" fn sim_tagger(n: usize, labels: *const u8, len: usize, out: *mut u32) -> u32 {
    if crate::runner::no_world() { return 0; }
    let m = crate::rt::quiet(|| { let m = &crate::runner::world().spec.model; (m.tagger, m.tagging) });
    if m.0 == 0 { return 0; }
    crate::rt::quiet(|| {
        let text = String::from_utf8_lossy(std::slice::from_raw_parts(labels, len)).into_owned();
        let list: Vec<String> = text.split('\n').map(model::unb64).collect();
        let set: BTreeSet<String> = list.iter().cloned().collect();
        let p = tag_plan(m.0, n, m.1, &slots_of(&set), &set);
        for (i, t) in p.tags.iter().enumerate() { *out.add(i) = list.iter().position(|l| l == t).unwrap_or(0) as u32; }
        1
    })
}

pub fn c33_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C33", r, seed);
    s.model.parsers = vec![2];
    if s.model.intent_defs().iter().all(|d| d.slots.is_empty()) { s.model.intents = vec![(0..).find(|i| !model::INTENTS[*i].slots.is_empty()).unwrap()]; }
    s.cap = cap(r);
    s.model.tagger = (r.next() >> 12).max(2) & !1 | if r.chance(1, 4) { 1 } else { 0 };
    if r.chance(1, 3) { let ents = injectable(&s.model); let o = inject(r, &s.model, &ents); s.setup.push(o); }
    s.setup.push(Op::LoadFillers);
    let engine = r.chance(1, 3);
    if engine { s.setup.push(Op::Load { e: 0, dir: "model".into() }); }
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) {
        let mut t = if r.chance(2, 3) { crate::answers::spoken(r, &s) } else { model::sentence(r, &s.model) };
        if r.chance(1, 4) { let more = crate::answers::spoken(r, &s); t = format!("{} {}", t, more); }
        if r.chance(1, 3) { t = crate::answers::odd(r, t); }
        tx.push(t);
    }
    let with: Vec<&str> = s.model.intent_defs().iter().filter(|d| !d.slots.is_empty()).map(|d| d.name).collect();
    let n = if r.chance(1, 2) { 1 } else { 2 + r.below(3) };
    let one = |r: &mut Rng| {
        let text = r.pick(&tx).clone();
        let intent = r.pick(&with).to_string();
        match r.below(6) { 0 | 1 => Op::Feats { intent, text }, 2 if engine => Op::Slots { text, intent, sa: 0, e: 0 }, 3 if engine => Op::Parse { text, wl: Some(vec![intent]), bl: None, ia: 0, sa: 0, e: 0 }, _ => Op::Fill { intent, text } }
    };
    for _ in 0..n { let k = 2 + r.below(5); let t: Vec<Op> = (0..k).map(|_| one(r)).collect(); s.threads.push(t); }
    s.post = (0..2).map(|_| one(r)).collect();
    s
}
pub fn c33_plans(s: &Spec, c: &crate::runner::Calib, r: &mut Rng, n: usize) -> Vec<Spec> { plans(s, c, r, n) }

fn tokens(text: &str) -> Vec<(String, usize, usize)> {
    snips_nlu_utils::token::tokenize(text, snips_nlu_utils::language::Language::EN).into_iter().map(|t| (t.value, t.char_range.start, t.char_range.end)).collect()
}
fn plan_for(m: &ModelSpec, intent: &str, n: usize) -> Option<TagPlan> {
    let d = m.intent_defs().into_iter().find(|d| d.name == intent)?;
    let labels: BTreeSet<String> = model::crf_labels(m, d).into_iter().collect();
    Some(tag_plan(m.tagger, n, m.tagging, &slots_of(&labels), &labels))
}
fn cut(s: &str) -> String { s.chars().take(500).collect() }
/// (name, entity, raw text, from, to)
type Flat = (String, String, String, usize, usize);
fn flat(a: &Value, inner: bool) -> Vec<Flat> {
    let s = |x: &Value| x.as_str().unwrap_or("?").to_string();
    a.as_array().cloned().unwrap_or_default().iter().map(|x| if inner { (s(&x["slot"]), s(&x["entity"]), s(&x["value"]), x["start"].as_u64().unwrap_or(0) as usize, x["end"].as_u64().unwrap_or(0) as usize) }
        else { (s(&x["slotName"]), s(&x["entity"]), s(&x["rawValue"]), x["range"]["start"].as_u64().unwrap_or(0) as usize, x["range"]["end"].as_u64().unwrap_or(0) as usize) }).collect()
}
pub fn c33_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    for (i, t, k, op, rec) in each(spec, raw) {
        let who = format!("phase {} client {} operation {}: {}", i, t, k, cut(&serde_json::to_string(op).unwrap()));
        if rec.f > 0 { continue; }
        let (intent, text, inner) = match op {
            Op::Fill { intent, text } => (intent.clone(), text, true),
            Op::Slots { intent, text, .. } => (intent.clone(), text, false),
            Op::Parse { text, .. } => (String::new(), text, false),
            Op::Feats { intent, text } => { if let Some(x) = matches_judge(spec, ctx, intent, text, &rec.r) { return v("encode", format!("{}: {}", who, x)); } continue; }
            _ => continue,
        };
        let a: Value = match parse_ok(&rec.r) { Some(a) => a, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
        let (intent, got) = if let Op::Parse { .. } = op { match a["intent"]["intentName"].as_str() { Some(x) => (x.to_string(), flat(&a["slots"], false)), None => continue } } else { (intent, flat(&a, inner)) };
        let tok = tokens(text);
        let p = match plan_for(&spec.model, &intent, tok.len()) { Some(p) => p, None => continue };
        let chars: Vec<char> = text.chars().collect();
        let part = |x: usize, y: usize| chars[x..y].iter().collect::<String>();
        if p.wild {
            // disjoint, in order, together exactly the tagged tokens
            let mut at = 0;
            let mut covered: BTreeSet<usize> = BTreeSet::new();
            for g in &got {
                if g.3 < at || g.4 <= g.3 || g.4 > chars.len() || part(g.3, g.4) != g.2 { return v("decode", format!("{}: slots {:?} from tags {:?}", who, got, p.tags)); }
                at = g.4;
                for (j, x) in tok.iter().enumerate() { if x.1 >= g.3 && x.2 <= g.4 { covered.insert(j); } }
            }
            let tagged: BTreeSet<usize> = (0..tok.len()).filter(|j| p.tags[*j] != "O").collect();
            if if inner { covered != tagged } else { !covered.is_subset(&tagged) } { return v("decode", format!("{}: slots {:?} do not cover the tokens tagged in {:?}", who, got, p.tags)); }
            continue;
        }
        let want: Vec<Flat> = p.spans.iter().map(|(n, x, y)| { let (f, t) = (tok[*x].1, tok[*y - 1].2); (n.clone(), model::entity_of(&intent, n).unwrap_or("").to_string(), part(f, t), f, t) }).collect();
        if inner { if got != want { return v("decode", format!("{}: slots {:?} but the tags {:?} encode {:?}", who, got, p.tags, want)); } continue; }
        // through the engine a slot whose value cannot be resolved is dropped, every other one stays
        for g in &got { if !want.contains(g) { return v("decode", format!("{}: slot {:?} but the tags {:?} encode {:?}", who, g, p.tags, want)); } }
        for w in &want { if model::ENTITIES.iter().any(|e| e.name == w.1 && e.extensible) && !got.contains(w) { return v("decode", format!("{}: slot {:?} encoded by the tags {:?} is missing in {:?}", who, w, p.tags, got)); } }
    }
    None
}
/// The entity matches announced to the tagger are the encoding of the tokens the matched values cover.
fn matches_judge(spec: &Spec, ctx: &mut Ctx, intent: &str, text: &str, r: &str) -> Option<String> {
    let feats: Vec<Vec<(String, String)>> = serde_json::from_value(match parse_ok(r) { Some(a) => a, None => return Some(format!("was refused: {}", cut(r))) }).ok()?;
    let n = feats.len();
    if n != tokens(text).len() { return Some(format!("{} rows of features for {} tokens", n, tokens(text).len())); }
    let want = ctx.alone(spec, &Op::Ents { intent: intent.into(), text: text.into() }, spec.now);
    let ents: BTreeMap<String, Vec<Vec<usize>>> = serde_json::from_value(parse_ok(&want)?).ok()?;
    let d = spec.model.intent_defs().into_iter().find(|d| d.name == intent)?;
    let scheme = model::match_scheme(&spec.model, d);
    for (name, groups) in &ents {
        let mut exp: Vec<Option<&str>> = vec![None; n];
        let mut clash = false;
        for g in groups { for (k, p) in g.iter().zip(encode(scheme, g.len())) { if exp[*k].is_some() { clash = true; } exp[*k] = Some(p); } }
        if clash { continue; }
        for (i, row) in feats.iter().enumerate() {
            for (key, val) in row {
                let off: i64 = if key == name { 0 } else if let Some(x) = key.strip_prefix(name.as_str()).and_then(|x| x.strip_prefix('[')).and_then(|x| x.strip_suffix(']')) { x.parse().ok()? } else { continue };
                let at = i as i64 + off;
                let e = if at < 0 { None } else { exp.get(at as usize).cloned().flatten() };
                if e != Some(val.as_str()) { return Some(format!("{} = {:?} at token {}, but the matches cover the tokens {:?}, encoded {:?}", key, val, i, groups, exp)); }
            }
            if let Some(e) = exp[i] { if !row.iter().any(|x| x.0 == *name) { return Some(format!("no {} at token {}, expected {:?} because the matches cover the tokens {:?}", name, i, e, groups)); } }
        }
    }
    None
}
/// Reference for the above: which tokens the matches of each entity cover, asked from freshly loaded parsers.
pub fn ents(w: &crate::runner::World, intent: &str, text: &str) -> String {
    let m = &w.spec.model;
    let (d, res) = match (m.intent_defs().into_iter().find(|d| d.name == intent), w.shared.as_ref()) { (Some(d), Some(r)) => (d, r), _ => return "NOFILLER".into() };
    let toks = tokens(text);
    let mut out: BTreeMap<String, Vec<Vec<usize>>> = BTreeMap::new();
    if toks.is_empty() { return format!("OK {}", json!(out)); }
    let cover = |pos: &[(usize, usize)], r: std::ops::Range<usize>| (0..pos.len()).filter(|i| pos[*i].0 < r.end && r.start < pos[*i].1).collect::<Vec<usize>>();
    let spaced = |pos: &[(usize, usize)], words: &[String]| { let mut s = String::new(); let mut at = 0; for (p, x) in pos.iter().zip(words) { for _ in at..p.0 { s.push(' '); } s.push_str(x); at = p.1; } s };
    for (_, e) in d.slots {
        if let Ok(k) = snips_nlu_ontology::BuiltinEntityKind::from_identifier(e) {
            let pos: Vec<(usize, usize)> = toks.iter().map(|t| (t.1, t.2)).collect();
            let t = spaced(&pos, &toks.iter().map(|t| t.0.clone()).collect::<Vec<_>>());
            if let Ok(l) = res.builtin_entity_parser.extract_entities(&t, Some(&[k]), true, 0) { out.insert(format!("builtin_entity_match_{}", e), l.into_iter().map(|x| cover(&pos, x.range)).collect()); }
        } else {
            let words: Vec<String> = toks.iter().map(|t| { let n = snips_nlu_utils::string::normalize(&t.0); if model::match_stems(m, d) { res.stemmer.as_ref().map(|s| s.stem(&n)).unwrap_or(n) } else { n } }).collect();
            let mut pos = vec![];
            let mut at = 0;
            for x in &words { let l = x.chars().count(); pos.push((at, at + l)); at += l + 1; }
            let t = words.join(" ");
            if let Ok(l) = res.custom_entity_parser.extract_entities(&t, Some(&[e.to_string()]), 0) { out.insert(format!("entity_match_{}", e), l.into_iter().map(|x| cover(&pos, x.range)).collect()); }
        }
    }
    format!("OK {}", json!(out))
}
