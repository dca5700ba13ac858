//! C35 (an engine answers as its parsers in order) and C36 (known sentences are understood): answers of simulated
//! histories are compared with what the parsers say one by one, and with a small reference matcher of the templates.
use crate::answers::{clients, injected, names_of, odd, plans, show, cut, spoken, world};
use crate::model::{self, ModelSpec, Part};
use crate::ops::{chain, Op};
use crate::props::*;
use crate::rng::Rng;
use crate::rt::quiet;
use crate::runner::{Calib, Ctx, Raw, Spec, World};
use serde_json::{json, Value};
use snips_nlu_lib::{DeterministicIntentParser, IntentParser, LookupIntentParser, ProbabilisticIntentParser};
use snips_nlu_utils::language::Language;
use snips_nlu_utils::token::tokenize;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

type Flat = (String, String, String, usize, usize);

// ---- reference operations ----
/// One parser of the model, freshly loaded, asked alone.
pub fn sole(w: &mut World, p: u8, op: &Op) -> String {
    if w.shared.is_none() { if let Err(e) = load_shared(w) { return e; } }
    let res = w.shared.clone().unwrap();
    let root = Path::new(&w.root).join("model");
    let parser: Result<Box<dyn IntentParser>, failure::Error> = match p {
        0 => DeterministicIntentParser::from_path(root.join("deterministic_intent_parser"), res).map(|x| Box::new(x) as _),
        1 => LookupIntentParser::from_path(root.join("lookup_intent_parser"), res).map(|x| Box::new(x) as _),
        _ => ProbabilisticIntentParser::from_path(root.join("probabilistic_intent_parser"), res).map(|x| Box::new(x) as _),
    };
    let parser = match parser { Ok(x) => x, Err(e) => return format!("NOPARSER {}", chain(&e)) };
    macro_rules! slots { ($l:expr) => { json!($l.iter().map(|s| json!({"slotName": s.slot_name, "entity": s.entity, "rawValue": s.value, "range": {"start": s.char_range.start, "end": s.char_range.end}})).collect::<Vec<_>>()) } }
    let r: Result<Value, failure::Error> = match op {
        Op::Parse { text, wl, .. } => { let l: Option<Vec<&str>> = wl.as_ref().map(|l| l.iter().map(|x| x.as_str()).collect()); parser.parse(text, l.as_ref().map(|l| &l[..])).map(|r| json!({"intent": serde_json::to_value(&r.intent).unwrap(), "slots": slots!(r.slots)})) }
        Op::Intents { text, .. } => parser.get_intents(text).map(|r| serde_json::to_value(&r).unwrap()),
        Op::Slots { text, intent, .. } => parser.get_slots(text, intent).map(|r| slots!(r)),
        _ => return "NOOP".into(),
    };
    match r { Ok(v) => format!("OK {}", v), Err(e) => format!("ERR {}", chain(&e)) }
}
pub fn load_shared(w: &mut World) -> Result<(), String> {
    let root = Path::new(&w.root).join("model");
    match snips_nlu_lib::load_shared_resources(root.join("resources").join(w.spec.model.lang()), root.join("builtin_entity_parser"), root.join("custom_entity_parser")) { Ok(r) => { w.shared = Some(r); Ok(()) } Err(e) => Err(format!("NOPARSER {}", chain(&e))) }
}
/// What the entity parsers, freshly loaded, recognise in a text within the entities of each intent.
pub fn found(w: &mut World, text: &str) -> String {
    if w.shared.is_none() { if let Err(e) = load_shared(w) { return e; } }
    let res = w.shared.clone().unwrap();
    let mut out = BTreeMap::new();
    for d in w.spec.model.intent_defs() {
        let mut l: Vec<(String, usize, usize)> = vec![];
        let kinds: Vec<_> = d.slots.iter().filter_map(|s| snips_nlu_ontology::BuiltinEntityKind::from_identifier(s.1).ok()).collect();
        let custom: Vec<String> = d.slots.iter().filter(|s| snips_nlu_ontology::BuiltinEntityKind::from_identifier(s.1).is_err()).map(|s| s.1.to_string()).collect();
        match res.builtin_entity_parser.extract_entities(text, Some(&kinds[..]), true, 0) { Ok(x) => l.extend(x.into_iter().map(|e| (e.entity_kind.identifier().to_string(), e.range.start, e.range.end))), Err(e) => return format!("ERR {}", chain(&e)) }
        match res.custom_entity_parser.extract_entities(text, Some(&custom[..]), 0) { Ok(x) => l.extend(x.into_iter().map(|e| (e.entity_identifier, e.range.start, e.range.end))), Err(e) => return format!("ERR {}", chain(&e)) }
        l.sort_by_key(|x| (x.1, x.2));
        out.insert(d.name.to_string(), l);
    }
    let _ = quiet(|| ());
    format!("OK {}", json!(out))
}
/// What the entity parsers, freshly loaded, give for one entity in a text: place, value and alternatives.
pub fn place(w: &mut World, text: &str, entity: &str, sa: usize) -> String {
    if w.shared.is_none() { if let Err(e) = load_shared(w) { return e; } }
    let res = w.shared.clone().unwrap();
    let custom = |v: &String| json!({"kind": "Custom", "value": v});
    let l: Result<Vec<Value>, failure::Error> = match snips_nlu_ontology::BuiltinEntityKind::from_identifier(entity) {
        Ok(k) => res.builtin_entity_parser.extract_entities(text, Some(&[k]), false, sa).map(|l| l.into_iter().map(|e| json!([e.range.start, e.range.end, e.entity, e.alternatives])).collect()),
        Err(_) => res.custom_entity_parser.extract_entities(text, Some(&[entity.to_string()]), sa).map(|l| l.into_iter().map(|e| json!([e.range.start, e.range.end, custom(&e.resolved_value), e.alternative_resolved_values.iter().map(custom).collect::<Vec<_>>()])).collect()),
    };
    match l { Ok(l) => format!("OK {}", json!(l)), Err(e) => format!("ERR {}", chain(&e)) }
}
/// The answers of reference operations, each made alone, in order, by one fresh client on the model as set up.
pub fn ask(ctx: &mut Ctx, spec: &Spec, ops: Vec<Op>) -> Vec<String> {
    let n = ops.len();
    let mut s = spec.calm(vec![], vec![ops], vec![]);
    s.now = spec.now;
    s.candidates.clear();
    let r = ctx.reference(&s);
    let mut l: Vec<String> = r.phases.get(1).and_then(|p| p.recs.first()).map(|v| v.iter().map(|x| x.r.clone()).collect()).unwrap_or_default();
    l.resize(n, "NOREF".into());
    l
}
fn flat(a: &Value) -> Vec<Flat> {
    let s = |x: &Value| x.as_str().unwrap_or("?").to_string();
    a.as_array().cloned().unwrap_or_default().iter().map(|x| (s(&x["slotName"]), s(&x["entity"]), s(&x["rawValue"]), x["range"]["start"].as_u64().unwrap_or(0) as usize, x["range"]["end"].as_u64().unwrap_or(0) as usize)).collect()
}
/// Slots given must be the expected ones in order; only those of builtin and closed entities can be left out.
fn slots_differ(got: &[Flat], want: &[Flat]) -> Option<String> {
    let mut i = 0;
    for w in want {
        if got.get(i) == Some(w) { i += 1; continue; }
        if model::ENTITIES.iter().any(|e| e.name == w.1 && e.extensible) { return Some(format!("slot {:?} expected, the slots are {:?}", w, got)); }
    }
    if i < got.len() { return Some(format!("slot {:?} not expected, expected {:?}", got[i], want)); }
    None
}

// ---- C35 ----
pub fn c35_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C35", r, seed);
    // more than one parser, in any order, possibly one twice
    let mut p = vec![0u8, 1, 2];
    r.shuffle(&mut p);
    p.truncate(2 + r.below(2));
    if r.chance(1, 8) { let x = *r.pick(&p); p.push(x); }
    s.model.parsers = p;
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) { let t = if r.chance(1, 3) { model::sentence(r, &s.model) } else { spoken(r, &s) }; tx.push(if r.chance(1, 6) { odd(r, t) } else { t }); }
    clients(r, &mut s, &tx, composed);
    s
}
fn composed(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let mut o = query(r, m, tx);
    if let Op::Extract { .. } = o { let text = r.pick(tx).clone(); o = Op::Intents { text, e: 0 }; }
    if let Op::Parse { ia, .. } = &mut o { if r.chance(1, 2) { *ia = 0; } }
    if let Op::Slots { intent, .. } = &mut o { if r.chance(1, 2) { *intent = r.pick(&m.intent_defs()).name.to_string(); } }
    o
}
pub fn c35_plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> { plans(s, c, r, n) }
pub fn name(x: &Value) -> Option<String> { x["intentName"].as_str().map(|s| s.to_string()) }
fn same_score(a: &Value, b: f64) -> bool { a.as_f64().map(|a| (a - b).abs() < 1e-5).unwrap_or(false) }
pub fn c35_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let all = names_of(&spec.model);
    let mut seen: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) { continue; }
        let who = format!("phase {} client {} operation {}: {}", i, t, k, show(op));
        if rec.f > 0 { if rec.r.starts_with("OK") { return v("skipped", format!("{}: a parser failed and the call answered {}", who, cut(&rec.r))); } continue; }
        let asked = match op {
            Op::Parse { text, wl, bl, .. } => {
                if wl.iter().chain(bl).flatten().any(|x| !all.contains(x.as_str())) { continue; }
                let l: Vec<String> = all.iter().filter(|n| wl.as_ref().map(|w| w.iter().any(|x| x == *n)).unwrap_or(true) && !bl.as_ref().map(|b| b.iter().any(|x| x == *n)).unwrap_or(false)).map(|s| s.to_string()).collect();
                Op::Parse { text: text.clone(), wl: if wl.is_none() && bl.is_none() { None } else { Some(l) }, bl: None, ia: 0, sa: 0, e: 0 }
            }
            Op::Slots { text, intent, .. } => Op::Slots { text: text.clone(), intent: intent.clone(), sa: 0, e: 0 },
            o => o.clone(),
        };
        let key = serde_json::to_string(&asked).unwrap();
        let ps: Vec<String> = seen.entry(key).or_insert_with(|| ask(ctx, spec, spec.model.parsers.iter().map(|p| Op::Sole { p: *p, call: Box::new(asked.clone()) }).collect())).clone();
        if ps.iter().any(|x| x.starts_with("NO")) { continue; }
        let vals: Vec<Option<Value>> = ps.iter().map(|x| parse_ok(x)).collect();
        let parsers = || ps.iter().zip(&spec.model.parsers).map(|(x, p)| format!("parser {}: {}", p, cut(x))).collect::<Vec<_>>().join("; ");
        let a = parse_ok(&rec.r);
        let bad = |class, what: String| v(class, format!("{}: {}: got {}; {}", who, what, cut(&rec.r), parsers()));
        match op {
            Op::Parse { .. } => {
                let mut expect: Option<Value> = None;
                let mut failed = false;
                for x in &vals { match x { None => { failed = true; break; } Some(x) => { expect = Some(x.clone()); if name(&x["intent"]).is_some() { break; } } } }
                if failed { if a.is_some() { return bad("error", "answered although a parser that had to be asked failed".into()); } continue; }
                let (x, a) = match (expect, a) { (Some(x), Some(a)) => (x, a), (_, None) => return bad("refused", "refused although no parser failed".into()), _ => continue };
                if name(&a["intent"]) != name(&x["intent"]) || !same_score(&a["intent"]["confidenceScore"], x["intent"]["confidenceScore"].as_f64().unwrap_or(-1.)) { return bad("order", "the intent is not that of the first parser that has one".into()); }
                if let Some(w) = slots_differ(&flat(&a["slots"]), &flat(&x["slots"])) { return bad("order", format!("the slots are not those of that parser: {}", w)); }
            }
            Op::Slots { .. } => {
                let mut expect = Some(json!([]));
                for x in &vals { match x { None => { expect = None; break; } Some(x) => if !flat(x).is_empty() { expect = Some(x.clone()); break; } } }
                let (x, a) = match (expect, a) { (Some(x), Some(a)) => (x, a), (None, None) => continue, (None, Some(_)) => return bad("error", "answered although a parser that had to be asked failed".into()), (Some(_), None) => return bad("refused", "refused although no parser failed".into()) };
                if let Some(w) = slots_differ(&flat(&a), &flat(&x)) { return bad("order", format!("the slots are not those of the first parser that finds any: {}", w)); }
            }
            Op::Intents { .. } => {
                if vals.iter().any(|x| x.is_none()) { if a.is_some() { return bad("error", "answered although a parser failed".into()); } continue; }
                let a = match a { Some(a) => a, None => return bad("refused", "refused although no parser failed".into()) };
                let mut best: BTreeMap<Option<String>, f64> = BTreeMap::new();
                for x in vals.iter().flatten() { for e in x.as_array().cloned().unwrap_or_default() { let s = e["confidenceScore"].as_f64().unwrap_or(0.); let b = best.entry(name(&e)).or_insert(0.); if s > *b { *b = s; } } }
                let got = a.as_array().cloned().unwrap_or_default();
                for g in &got { match best.get(&name(g)) { Some(s) if same_score(&g["confidenceScore"], *s) => {} s => return bad("ranking", format!("{} has the score {} but the best score any parser gives it is {:?}", g["intentName"], g["confidenceScore"], s)) } }
                for (n, s) in &best { if *s > 0. && !got.iter().any(|g| name(g) == *n) { return bad("ranking", format!("{:?} is missing though a parser gives it the score {}", n, s)); } }
            }
            _ => {}
        }
    }
    None
}

// ---- C36 ----
pub fn c36_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C36", r, seed);
    s.model.tagger = 0;
    s.model.parsers = match r.below(8) { 0 | 1 => vec![0], 2 | 3 => vec![1], 4 => vec![0, 1], 5 => vec![1, 0], 6 => vec![0, 2], _ => vec![1, 2] };
    let mut tx: Vec<String> = vec![];
    for _ in 0..3 + r.below(4) {
        let mut t = if r.chance(1, 6) { model::sentence(r, &s.model) } else { spoken(r, &s) };
        for _ in 0..r.below(3) {
            t = match r.below(8) {
                0 => t.to_uppercase(),
                1 => format!("{} {}", r.pick(&["🙂", "-", "...", "?!", "“"]), t),
                2 => t.replacen(' ', r.pick(&["  ", " - ", ", ", "\t", " 🙂 "]), 1 + r.below(3)),
                3 => format!("{}{}", t, r.pick(&["?", "!", " .", " 🙂", "…"])),
                4 => { let w = *r.pick(&["the", "please", "a", "to", "Please", "THE"]); let mut x: Vec<&str> = t.split(' ').collect(); let i = r.below(x.len() + 1); x.insert(i, w); x.join(" ") }
                5 => t.split(' ').enumerate().map(|(i, w)| if i == 0 { w.chars().enumerate().map(|(k, c)| if k == 0 { c.to_ascii_uppercase() } else { c }).collect() } else { w.to_string() }).collect::<Vec<String>>().join(" "),
                6 => if r.chance(1, 3) { odd(r, t) } else { t },
                _ => t,
            };
        }
        tx.push(t);
    }
    clients(r, &mut s, &tx, understood);
    s
}
fn understood(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let text = r.pick(tx).clone();
    match r.below(8) {
        0 => Op::Slots { text, intent: r.pick(&m.intent_defs()).name.to_string(), sa: 0, e: 0 },
        1 => Op::Intents { text, e: 0 },
        2 | 3 => { let mut l: Vec<String> = m.intent_defs().iter().filter(|_| r.chance(2, 3)).map(|d| d.name.to_string()).collect(); r.shuffle(&mut l); if r.chance(1, 3) { Op::Parse { text, wl: None, bl: Some(l), ia: 0, sa: 0, e: 0 } } else { Op::Parse { text, wl: Some(l), bl: None, ia: 0, sa: 0, e: 0 } } }
        _ => Op::Parse { text, wl: None, bl: None, ia: 0, sa: 0, e: 0 },
    }
}
type Ent = (String, usize, usize);
/// A way of reading a text as a template: (slot, entity, start, end) of every slot
type Reading = Vec<(String, String, usize, usize)>;
fn fold(s: &str) -> String { s.to_lowercase() }
struct Matcher<'a> { m: &'a ModelSpec, lang: Language, chars: Vec<char> }
impl<'a> Matcher<'a> {
    fn words(&self, s: &str) -> Vec<String> { tokenize(s, self.lang).into_iter().map(|t| fold(&t.value)).collect() }
    fn stops(&self, intent: &str, w: &str) -> bool {
        let w = snips_nlu_utils::string::normalize(w);
        self.m.stops(intent, &w)
    }
    /// tokens of the text without stop words, recognised entities as one item
    fn items(&self, intent: &str, ents: &[Ent]) -> Option<Vec<Result<(String, usize, usize), usize>>> {
        let text: String = self.chars.iter().collect();
        let toks = tokenize(&text, self.lang);
        for e in ents { if !toks.iter().any(|t| t.char_range.start == e.1) || !toks.iter().any(|t| t.char_range.end == e.2) { return None; } }
        let mut out = vec![];
        for t in toks {
            if let Some(k) = ents.iter().position(|e| e.1 <= t.char_range.start && t.char_range.end <= e.2) { if ents[k].1 == t.char_range.start { out.push(Err(k)); } continue; }
            if ents.iter().any(|e| e.1 < t.char_range.end && t.char_range.start < e.2) { return None; }
            if self.stops(intent, &t.value) { continue; }
            out.push(Ok((fold(&t.value), t.char_range.start, t.char_range.end)));
        }
        Some(out)
    }
    /// all readings of `items` as `template`; `glue`: word boundaries do not matter
    fn read(&self, intent: &str, template: &str, items: &[Result<(String, usize, usize), usize>], ents: &[Ent], literal: bool, glue: bool) -> Vec<Reading> {
        // the text as a string of characters, entities as private characters, with the position of each character
        let mut s: Vec<(char, usize, usize)> = vec![];
        for it in items {
            match it {
                Ok((w, a, b)) => { let n = w.chars().count(); for (k, c) in w.chars().enumerate() { s.push((c, a + k, if k + 1 == n { *b } else { a + k + 1 })); } }
                Err(k) => s.push((char::from_u32(0xE000 + *k as u32).unwrap(), ents[*k].1, ents[*k].2)),
            }
            if !glue { s.push((' ', 0, 0)); }
        }
        let mut states: Vec<(usize, Reading)> = vec![(0, vec![])];
        let join = |w: &[String]| w.iter().flat_map(|x| { let mut c: Vec<char> = x.chars().collect(); if !glue { c.push(' '); } c }).collect::<Vec<char>>();
        let at = |s: &[(char, usize, usize)], from: usize, p: &[char]| from + p.len() <= s.len() && p.iter().enumerate().all(|(i, c)| s[from + i].0 == *c);
        for part in model::parts(template) {
            let mut next = vec![];
            match part {
                Part::Text(t) => {
                    let w: Vec<String> = self.words(&t).into_iter().filter(|w| !self.stops(intent, w)).collect();
                    let p = join(&w);
                    for (i, r) in states { if at(&s, i, &p) { next.push((i + p.len(), r)); } }
                }
                Part::Slot(slot) => {
                    let e = model::entity_of(intent, &slot).unwrap_or("");
                    for (i, r) in states {
                        for (k, x) in ents.iter().enumerate() { if x.0 == e { let mut p = vec![char::from_u32(0xE000 + k as u32).unwrap()]; if !glue { p.push(' '); } if at(&s, i, &p) { let mut r = r.clone(); r.push((slot.clone(), e.into(), x.1, x.2)); next.push((i + p.len(), r)); } } }
                        if literal { if let Some(d) = model::ENTITIES.iter().find(|d| d.name == e && d.extensible) { for val in d.values.iter().map(|v| v.0).chain(model::LITERALS.iter().filter(|l| l.0 == e).map(|l| l.1)) {
                            let p = join(&self.words(val));
                            if at(&s, i, &p) { let n = if glue { p.len() } else { p.len() - 1 }; let mut r = r.clone(); r.push((slot.clone(), e.into(), s[i].1, s[i + n - 1].2)); next.push((i + p.len(), r)); }
                        } } }
                    }
                }
            }
            states = next;
        }
        states.into_iter().filter(|x| x.0 == s.len()).map(|x| x.1).collect()
    }
    /// intent -> readings by the given parser, None if it cannot be told
    fn readings(&self, parser: u8, found: &BTreeMap<String, Vec<Ent>>, allowed: &BTreeSet<&str>) -> Option<BTreeMap<String, BTreeSet<Reading>>> {
        let mut out: BTreeMap<String, BTreeSet<Reading>> = BTreeMap::new();
        if parser == 0 {
            for (intent, t) in self.m.templates() {
                if !allowed.contains(intent) { continue; }
                let ents = found.get(intent)?;
                let mut sides = vec![];
                for glue in [false, true] {
                    let mut l: BTreeSet<Reading> = BTreeSet::new();
                    // as it is said, then with everything recognised replaced
                    l.extend(self.read(intent, t, &self.items(intent, &[])?, &[], true, glue));
                    if !ents.is_empty() { l.extend(self.read(intent, t, &self.items(intent, ents)?, ents, true, glue)); }
                    sides.push(l);
                }
                if sides[0] != sides[1] { return None; }
                let l = sides.remove(0);
                // of an intent's utterances the first counts
                if !l.is_empty() && !out.contains_key(intent) { out.entry(intent.to_string()).or_default().extend(l); }
            }
        } else {
            // one utterance per key: the one written last
            let ts = self.m.templates();
            let key = |intent: &str, t: &str| { let mut k: Vec<String> = vec![]; for p in model::parts(t) { match p { Part::Text(x) => k.extend(self.words(&x).into_iter().filter(|w| !self.stops(intent, w))), Part::Slot(s) => k.push(format!("%{}", model::entity_of(intent, &s).unwrap_or(""))) } } k };
            let max = ts.iter().map(|(_, t)| model::parts(t).iter().filter(|p| matches!(p, Part::Slot(_))).count()).max().unwrap_or(0);
            for (n, (intent, t)) in ts.iter().enumerate() {
                if !allowed.contains(intent) { continue; }
                if ts[n + 1..].iter().any(|(i2, t2)| key(i2, t2) == key(intent, t)) { continue; }
                // the intent's own scope first: what other intents' stop words or entities make of the text must not add to it
                for (scope, ents) in found.iter().filter(|x| x.0 == intent).chain(found.iter().filter(|x| x.0 != intent)) {
                    if !allowed.contains(scope.as_str()) { continue; }
                    if ents.len() > 10 { return None; }
                    for set in 0..1u32 << ents.len() {
                        if set.count_ones() as usize > max { continue; }
                        let sub: Vec<Ent> = (0..ents.len()).filter(|k| set >> k & 1 == 1).map(|k| ents[k].clone()).collect();
                        let items = self.items(scope, &sub)?;
                        // the stop words are those of the scope's intent for the text and those of the utterance's for the key
                        let l = self.read(intent, t, &items, &sub, false, false);
                        if scope != intent && l.iter().any(|r| r.len() != sub.len() || !out.get(*intent).map(|o| o.contains(r)).unwrap_or(false)) { return None; }
                        for r in l { if r.len() == sub.len() { out.entry(intent.to_string()).or_default().insert(r); } }
                    }
                }
            }
        }
        Some(out)
    }
}
/// Expected answer of one parser: Some(None) nothing, Some((intent, score, slots if certain)), None if it cannot be told.
fn expected(parser: u8, rd: &BTreeMap<String, BTreeSet<Reading>>) -> Option<Option<(String, f64, Option<Reading>)>> {
    let mut counts: Vec<(String, usize)> = vec![];
    for (i, l) in rd { let n: BTreeSet<usize> = l.iter().map(|r| r.len()).collect(); if parser == 0 && n.len() > 1 { return None; } counts.push((i.clone(), *n.iter().next()?)); }
    let total: f64 = counts.iter().map(|c| 1. / (1. + c.1 as f64)).sum();
    let best = counts.iter().find(|c| 1. / (1. + c.1 as f64) / total > 0.5 + 1e-6);
    if best.is_none() && counts.iter().any(|c| (1. / (1. + c.1 as f64) / total - 0.5).abs() < 1e-6) && counts.len() != 2 { return None; }
    Some(best.map(|(i, n)| { let of: Vec<&Reading> = rd[i].iter().filter(|r| r.len() == *n).collect(); (i.clone(), 1. / (1. + *n as f64) / total, if of.len() == 1 { Some(of[0].clone()) } else { None }) }))
}
/// Of overlapping values the longest counts (None: they are equally long).
fn longest(l: &[Ent]) -> Option<Vec<Ent>> {
    let mut left: Vec<Ent> = l.to_vec();
    left.sort_by_key(|x| std::cmp::Reverse(x.2 - x.1));
    let mut kept: Vec<Ent> = vec![];
    for x in left {
        if let Some(k) = kept.iter().find(|k| k.1 < x.2 && x.1 < k.2) { if k.2 - k.1 == x.2 - x.1 { return None; } continue; }
        kept.push(x);
    }
    kept.sort_by_key(|x| x.1);
    Some(kept)
}
pub fn c36_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let all = names_of(&spec.model);
    let mut cache: BTreeMap<String, Option<BTreeMap<String, Vec<Ent>>>> = BTreeMap::new();
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) || rec.f > 0 { continue; }
        let text = match op { Op::Parse { text, .. } | Op::Slots { text, .. } | Op::Intents { text, .. } => text, _ => continue };
        let chars: Vec<char> = text.chars().collect();
        // characters whose upper and lower case forms do not correspond one to one are left out
        let plain = |c: char| c.is_ascii() || ('\u{c0}'..'\u{ff}').contains(&c) && !['\u{d7}', '\u{df}', '\u{f7}'].contains(&c) || ('\u{4e00}'..'\u{9fff}').contains(&c) || !c.is_alphabetic() && c.to_lowercase().to_string() == c.to_string();
        if text.contains('%') || chars.iter().any(|c| !plain(*c) || *c as u32 >= 0xE000 && (*c as u32) < 0xF900) { continue; }
        let who = format!("phase {} client {} operation {}: {}", i, t, k, show(op));
        let f = cache.entry(text.clone()).or_insert_with(|| {
            let mut f: BTreeMap<String, Vec<Ent>> = serde_json::from_value(parse_ok(&ask(ctx, spec, vec![Op::Found { text: text.clone() }])[0])?).ok()?;
            for l in f.values_mut() { *l = longest(l)?; }
            Some(f)
        });
        let f = match f { Some(f) => f.clone(), None => continue };
        let m = Matcher { m: &spec.model, lang: spec.model.lang().parse().unwrap_or(Language::EN), chars: chars.clone() };
        let a = match parse_ok(&rec.r) { Some(a) => a, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
        let slots_of = |r: &Reading| r.iter().map(|(n, e, x, y)| (n.clone(), e.clone(), chars[*x..*y].iter().collect::<String>(), *x, *y)).collect::<Vec<Flat>>();
        let first = spec.model.parsers[0];
        match op {
            Op::Parse { wl, bl, .. } => {
                let allowed: BTreeSet<&str> = all.iter().cloned().filter(|n| wl.as_ref().map(|w| w.iter().any(|x| x == n)).unwrap_or(true) && !bl.as_ref().map(|b| b.iter().any(|x| x == n)).unwrap_or(false)).collect();
                let mut want = Some(None);
                for p in &spec.model.parsers { if *p == 2 { want = None; break; } want = m.readings(*p, &f, &allowed).and_then(|rd| expected(*p, &rd)); if !matches!(want, Some(None)) { break; } }
                let want = match want { Some(w) => w, None => continue };
                let got = name(&a["intent"]);
                let (intent, score, reading) = match want { None => { if let Some(g) = got { return v("invented", format!("{}: answered {} although the sentence is none of the known ones ({})", who, g, cut(&rec.r))); } continue; } Some(x) => x };
                if got.as_deref() != Some(&intent) { return v("understood", format!("{}: the sentence is a known one of {} but the answer is {}", who, intent, cut(&rec.r))); }
                if !same_score(&a["intent"]["confidenceScore"], score) { return v("understood", format!("{}: score {} expected, answer {}", who, score, cut(&rec.r))); }
                if let Some(r) = reading { if let Some(x) = known_slots(spec, &slots_of(&r), &a["slots"]) { return v("slots", format!("{}: {} in {}", who, x, cut(&rec.r))); } }
            }
            Op::Slots { intent, .. } => {
                if spec.model.parsers.len() > 1 && first == 2 { continue; }
                let allowed: BTreeSet<&str> = all.iter().cloned().filter(|n| n == intent).collect();
                if allowed.is_empty() { continue; }
                let want = match m.readings(first, &f, &allowed).and_then(|rd| expected(first, &rd)) { Some(w) => w, None => continue };
                match want { None => { if spec.model.parsers.len() == 1 && !flat(&a).is_empty() { return v("invented", format!("{}: slots {} although the sentence is none of the known ones of {}", who, a, intent)); } }
                    Some((_, _, Some(r))) if !r.is_empty() => { if let Some(x) = known_slots(spec, &slots_of(&r), &a) { return v("slots", format!("{}: {} in {}", who, x, cut(&rec.r))); } }
                    _ => {} }
            }
            Op::Intents { .. } => {
                if spec.model.parsers.len() > 1 { continue; }
                let rd = match m.readings(first, &f, &all) { Some(x) => x, None => continue };
                if first == 0 && rd.values().any(|l| l.iter().map(|r| r.len()).collect::<BTreeSet<_>>().len() > 1) { continue; }
                let w: BTreeMap<&String, f64> = rd.iter().map(|(i, l)| (i, 1. / (1. + l.iter().map(|r| r.len()).min().unwrap_or(0) as f64))).collect();
                let total: f64 = w.values().sum();
                let list = a.as_array().cloned().unwrap_or_default();
                if list.len() != all.len() + 1 { return v("ranking", format!("{}: {} entries for {} intents", who, list.len(), all.len())); }
                for e in list { let want = name(&e).and_then(|n| w.get(&n).map(|x| x / total)).unwrap_or(0.); if !same_score(&e["confidenceScore"], want) { return v("ranking", format!("{}: {} has the score {} and should have {}: {}", who, e["intentName"], e["confidenceScore"], want, cut(&rec.r))); } }
            }
            _ => {}
        }
    }
    None
}
/// The slots, all resolved, each value said as it was learnt being the one it was learnt for.
fn known_slots(spec: &Spec, want: &[Flat], got: &Value) -> Option<String> {
    let g = flat(got);
    if g != want { return Some(format!("slots {:?} expected, got {:?}", want, g)); }
    // with a lower threshold a part of a longer value is recognised as that value
    if spec.model.threshold < 1.0 { return None; }
    for (x, s) in g.iter().zip(got.as_array()?) {
        let def = match model::ENTITIES.iter().find(|e| e.name == x.1) { Some(d) => d, None => continue };
        let norm = |t: &str| snips_nlu_utils::string::normalize(t);
        let like = |t: &str| norm(t) == norm(&x.2) || model::stem_value(&norm(t)) == model::stem_value(&norm(&x.2));
        if !def.values.iter().any(|d| norm(d.0) == norm(&x.2)) && !injected(spec).iter().any(|d| d.0 == x.1 && norm(&d.1) == norm(&x.2)) { continue; }
        let may: BTreeSet<String> = def.values.iter().filter(|d| like(d.0)).map(|d| d.1.to_string()).chain(injected(spec).into_iter().filter(|d| d.0 == x.1 && like(&d.1)).map(|d| d.1)).collect();
        let val = s["value"]["value"].as_str().unwrap_or("?");
        if !may.contains(val) { return Some(format!("the value of {:?} is {:?} but it was learnt as {:?}", x, val, may)); }
    }
    None
}

// ---- C37 ----
pub fn c37_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C37", r, seed);
    if s.model.parsers == vec![0] && r.chance(1, 2) { s.model.parsers = vec![2]; }
    if r.chance(1, 4) && s.model.tagger == 0 { s.model.tagger = (r.next() >> 12).max(2); }
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) { let t = if r.chance(1, 3) { model::sentence(r, &s.model) } else { spoken(r, &s) }; tx.push(if r.chance(1, 4) { odd(r, t) } else { t }); }
    clients(r, &mut s, &tx, valued);
    s
}
fn valued(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let mut o = query(r, m, tx);
    if let Op::Intents { .. } = o { o = Op::Parse { text: r.pick(tx).clone(), wl: None, bl: None, ia: 0, sa: 0, e: 0 }; }
    match &mut o {
        Op::Parse { sa, .. } | Op::Slots { sa, .. } => if r.chance(1, 3) { *sa = 1 + r.below(4); },
        Op::Extract { text, sa, .. } => { if r.chance(1, 3) { *sa = 1 + r.below(4); } match r.below(5) { 0 => *text = format!("the {} now", text), 1 => { let d = *r.pick(&m.intent_defs()); if !d.slots.is_empty() { let e = r.pick(d.slots).1; *text = format!("{} {}", text, model::entity_value(r, e)); } } 2 => *text = odd(r, text.clone()), _ => {} } }
        _ => {}
    }
    o
}
/// What a slot with this text at this place may be resolved to: None if it cannot be
fn resolution(there: &[Value], alone: &[Value], entity: &str, raw: &str, from: usize, to: usize) -> Vec<(Value, Value)> {
    let pick = |l: &[Value], ok: &dyn Fn(usize, usize) -> bool| l.iter().filter(|x| ok(x[0].as_u64().unwrap_or(0) as usize, x[1].as_u64().unwrap_or(0) as usize)).map(|x| (x[2].clone(), x[3].clone())).collect::<Vec<_>>();
    let exact = pick(there, &|a, b| (a, b) == (from, to));
    if !exact.is_empty() { return exact; }
    let n = raw.chars().count();
    let own = if entity.starts_with("snips/") { pick(alone, &|_, _| true) } else { pick(alone, &|a, b| (a, b) == (0, n)) };
    if !own.is_empty() { return own; }
    if model::ENTITIES.iter().any(|e| e.name == entity && e.extensible) { return vec![(json!({"kind": "Custom", "value": raw}), json!([]))]; }
    vec![]
}
pub fn c37_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let mut cache: BTreeMap<(String, String, usize), Option<Vec<Value>>> = BTreeMap::new();
    let list = |x: &Value| x.as_array().cloned().unwrap_or_default();
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) || rec.f > 0 { continue; }
        let a = match parse_ok(&rec.r) { Some(a) => a, None => continue };
        let who = format!("phase {} client {} operation {}: {}", i, t, k, show(op));
        let mut place = |ctx: &mut Ctx, text: &str, entity: &str, sa: usize| cache.entry((text.to_string(), entity.to_string(), sa)).or_insert_with(|| parse_ok(&ask(ctx, spec, vec![Op::Place { text: text.into(), entity: entity.into(), sa }])[0]).map(|x| list(&x))).clone();
        let (text, sa) = match op { Op::Parse { text, sa, .. } | Op::Slots { text, sa, .. } | Op::Extract { text, sa, .. } => (text, *sa), _ => continue };
        if let Op::Extract { intent, slot, .. } = op {
            let entity = match model::entity_of(intent, slot) { Some(e) => e, None => continue };
            let l = match place(ctx, text, entity, sa) { Some(l) => l, None => continue };
            let ext = model::ENTITIES.iter().any(|e| e.name == entity && e.extensible);
            let whole = json!([0, text.chars().count(), {"kind": "Custom", "value": text}, []]);
            let got = if a.is_null() { Value::Null } else { json!([a["range"]["start"], a["range"]["end"], a["value"], list(&a["alternatives"])]) };
            let fits = if l.is_empty() { got == if ext { whole } else { Value::Null } } else { l.contains(&got) };
            if !fits { return v("extract", format!("{}: the entity parser finds {} but the answer is {}", who, json!(l), cut(&rec.r))); }
            continue;
        }
        let mut lists: Vec<(Option<String>, Vec<Value>)> = match op { Op::Parse { .. } => vec![(a["intent"]["intentName"].as_str().map(|s| s.to_string()), list(&a["slots"]))], Op::Slots { intent, .. } => vec![(Some(intent.clone()), list(&a))], _ => vec![] };
        if let Op::Parse { .. } = op { for x in list(&a["alternatives"]) { lists.push((x["intent"]["intentName"].as_str().map(|s| s.to_string()), list(&x["slots"]))); } }
        for (n, (intent, slots)) in lists.iter().enumerate() {
            let mut there_of = |ctx: &mut Ctx, entity: &str, raw_value: &str, from: usize, to: usize| -> Option<Vec<(Value, Value)>> { let there = place(ctx, text, entity, sa)?; let alone = if there.iter().any(|x| x[0] == json!(from) && x[1] == json!(to)) { vec![] } else { place(ctx, raw_value, entity, sa)? }; Some(resolution(&there, &alone, entity, raw_value, from, to)) };
            let what = |s: &Value| (s["entity"].as_str().unwrap_or("").to_string(), s["rawValue"].as_str().unwrap_or("").to_string(), s["range"]["start"].as_u64().unwrap_or(0) as usize, s["range"]["end"].as_u64().unwrap_or(0) as usize);
            for s in slots {
                let (e, raw_value, from, to) = what(s);
                let may = match there_of(ctx, &e, &raw_value, from, to) { Some(m) => m, None => continue };
                let got = (s["value"].clone(), json!(list(&s["alternatives"])));
                if !may.contains(&got) { return v("value", format!("{}: slot {} should have one of the values {:?}", who, s, may.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>())); }
            }
            // what is left out has no value
            if n > 0 || spec.model.parsers.len() != 1 { continue; }
            let asked = match (op, intent) { (Op::Parse { .. }, Some(i)) => i, (Op::Slots { intent, .. }, _) => intent, _ => continue };
            let asked = match op { Op::Parse { wl, bl, .. } if wl.is_some() || bl.is_some() => Op::Parse { text: text.clone(), wl: Some(vec![asked.clone()]), bl: None, ia: 0, sa: 0, e: 0 }, Op::Parse { .. } => Op::Parse { text: text.clone(), wl: None, bl: None, ia: 0, sa: 0, e: 0 }, _ => Op::Slots { text: text.clone(), intent: asked.clone(), sa: 0, e: 0 } };
            let own = match parse_ok(&ask(ctx, spec, vec![Op::Sole { p: spec.model.parsers[0], call: Box::new(asked.clone()) }])[0]) { Some(o) => o, None => continue };
            let own = if let Op::Parse { .. } = asked { if own["intent"]["intentName"].as_str() != intent.as_deref() { continue; } list(&own["slots"]) } else { list(&own) };
            for s in own {
                let (e, raw_value, from, to) = what(&s);
                if slots.iter().any(|g| g["slotName"] == s["slotName"] && g["range"] == s["range"]) { continue; }
                let may = match there_of(ctx, &e, &raw_value, from, to) { Some(m) => m, None => continue };
                if let Some(m) = may.first() { return v("dropped", format!("{}: slot {} is left out although its value is {}: {}", who, s, m.0, cut(&rec.r))); }
            }
        }
    }
    None
}
