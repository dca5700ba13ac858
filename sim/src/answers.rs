//! Properties of every single answer (C30, C31, C32, C34): each is checked on every answer of simulated histories
//! with several clients, failing collaborators, clock jumps, injected values, small caches and both ways of loading.
use crate::model::{self, ModelSpec, INTENTS};
use crate::ops::Op;
use crate::props::*;
use crate::rng::Rng;
use crate::rt::{ClockJump, StubFault};
use crate::runner::{Calib, Ctx, Raw, Spec};
use serde_json::Value;
use std::collections::BTreeSet;

/// How the engine comes to be: from a directory or an archive, with or without injected values.
pub fn world(id: &str, r: &mut Rng, seed: u64) -> Spec {
    let mut s = base(id, r, seed);
    s.cap = cap(r);
    if id != "C31" && r.chance(1, 4) { s.model.tagger = (r.next() >> 12).max(2); }
    if r.chance(1, 3) { let ents = injectable(&s.model); for _ in 0..r.geometric(2) { let o = inject(r, &s.model, &ents); s.setup.push(o); } }
    s.setup.push(if r.chance(1, 4) { Op::LoadZip { e: 0, zip: some_zip(r) } } else { Op::Load { e: 0, dir: "model".into() } });
    s
}
pub fn injected(s: &Spec) -> Vec<(String, String)> { s.all_ops().flat_map(|o| if let Op::Inject { values, .. } = o { values.clone() } else { vec![] }).collect() }
/// A sentence made from a template, some of its values injected ones.
pub fn spoken(r: &mut Rng, s: &Spec) -> String {
    let inj = injected(s);
    let t = s.model.templates();
    let (intent, tpl) = *r.pick(&t);
    let mut out = String::new();
    for p in model::parts(tpl) {
        match p {
            model::Part::Text(t) => out.push_str(&t),
            model::Part::Slot(x) => {
                let e = model::entity_of(intent, &x).unwrap_or("");
                let own: Vec<&(String, String)> = inj.iter().filter(|v| v.0 == e).collect();
                if !own.is_empty() && r.chance(1, 2) { out.push_str(&r.pick(&own).1) } else { out.push_str(&model::entity_value(r, e)) }
            }
        }
    }
    out
}
static ODD: &[&str] = &["İ", "İİİ", "ß", "\u{212a}", "ﬁ", "ǆ", "日本", "é", "e\u{301}", "🙂", "\u{200d}", "\t", "\u{a0}", "  ", "?", "!!", "%", "-", "'", "Ⅷ", "ΑΣ", "\u{feff}", "x"];
/// Texts whose lowercase form, tokens or character count are not what they look like.
pub fn odd(r: &mut Rng, text: String) -> String {
    if text.len() > 2000 { return text; }
    let f = r.pick(ODD).to_string();
    match r.below(8) {
        0 => format!("{} {}", f, text),
        1 => format!("{}{}", f, text),
        2 => { let i = r.below(text.chars().count() + 1); let mut c: Vec<char> = text.chars().collect(); for (k, x) in f.chars().enumerate() { c.insert(i + k, x); } c.into_iter().collect() }
        3 => text.to_uppercase(),
        4 => text.replace(' ', &format!(" {} ", f)),
        5 => text.replace(' ', "   "),
        6 => { let mut t = text; for _ in 0..1 + r.below(3) { let g = *r.pick(ODD); t = format!("{} {}", g, t); } t }
        _ => format!("  {}  {}", text, f),
    }
}
pub fn clients(r: &mut Rng, s: &mut Spec, tx: &[String], q: fn(&mut Rng, &ModelSpec, &[String]) -> Op) {
    let n = if r.chance(1, 2) { 1 } else { 2 + r.below(2) };
    for _ in 0..n { let k = 2 + r.below(4); s.threads.push((0..k).map(|_| q(r, &s.model, tx)).collect()); }
    s.post = (0..1 + r.below(3)).map(|_| q(r, &s.model, tx)).collect();
}
pub fn c30_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C30", r, seed);
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) { let t = spoken(r, &s); tx.push(if r.chance(3, 5) { odd(r, t) } else { t }); }
    if r.chance(1, 15) {
        // one very long word or gap, with the sentence before, around or after it
        let n = *r.pick(&[300usize, 33_000, 40_000, 70_000]);
        let long = if r.chance(1, 3) { "y" } else { " " }.repeat(n);
        let t = spoken(r, &s);
        tx = vec![match r.below(4) { 0 => format!("{} {}", t, long), 1 => t.replacen(' ', &format!(" {} ", long), 1), _ => format!("{} {}", long, t) }];
    }
    clients(r, &mut s, &tx, more_values);
    s
}
/// like `query`, but single values are asked for in odd surroundings
fn more_values(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let mut o = query(r, m, tx);
    if let Op::Intents { .. } = o { let with: Vec<_> = m.intent_defs().into_iter().filter(|d| !d.slots.is_empty()).collect(); if !with.is_empty() { let d = *r.pick(&with); let (slot, ent) = *r.pick(d.slots); o = Op::Extract { text: model::entity_value(r, ent), intent: d.name.into(), slot: slot.into(), sa: r.below(3), e: 0 }; } }
    if let Op::Extract { text, .. } = &mut o { if r.chance(2, 3) { *text = odd(r, text.clone()); } if r.chance(1, 3) { *text = format!("The {} Now", text); } }
    o
}
fn more_filters(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let mut o = query(r, m, tx);
    if let Op::Parse { wl, bl, ia, .. } = &mut o {
        let some = |r: &mut Rng| { let mut v: Vec<String> = m.intent_defs().iter().filter(|_| r.chance(1, 2)).map(|d| d.name.to_string()).collect(); r.shuffle(&mut v); if r.chance(1, 8) { if let Some(x) = v.first().cloned() { v.push(x); } } if r.chance(1, 15) { v.push("NoSuchIntent".into()); } v };
        match r.below(5) { 0 | 1 => *wl = Some(some(r)), 2 => *bl = Some(some(r)), 3 => { *wl = Some(some(r)); *bl = Some(some(r)); } _ => {} }
        if r.chance(1, 3) { *ia = 9; }
    } else if r.chance(1, 2) { let text = r.pick(tx).clone(); return more_filters(r, m, &[text]); }
    o
}
pub fn c31_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C31", r, seed);
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) { tx.push(if r.chance(1, 4) { model::sentence(r, &s.model) } else { spoken(r, &s) }); }
    if r.chance(1, 6) { tx.push(String::new()); }
    clients(r, &mut s, &tx, more_filters);
    s
}
fn more_rankings(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let mut o = query(r, m, tx);
    match &mut o { Op::Parse { ia, sa, .. } => { if r.chance(1, 2) { *ia = 1 + r.below(9); *sa = r.below(5); } } Op::Extract { .. } => { let text = r.pick(tx).clone(); return Op::Intents { text, e: 0 }; } _ => {} }
    o
}
pub fn c32_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C32", r, seed);
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) { tx.push(if r.chance(1, 3) { model::sentence(r, &s.model) } else { spoken(r, &s) }); }
    if r.chance(1, 8) { tx.push(String::new()); }
    clients(r, &mut s, &tx, more_rankings);
    s
}
/// schedules, failing collaborators and (where answers are not compared with one another) clock jumps
pub fn plans(s: &Spec, c: &Calib, r: &mut Rng, n: usize) -> Vec<Spec> {
    (0..n).map(|i| {
        let mut p = s.clone();
        if s.threads.len() > 1 { schedule(&mut p, r, c); }
        if i > 0 && r.chance(1, 3) { for _ in 0..r.geometric(3) { let kind = 1 + r.below(3) as u32; if c.stub_calls[kind as usize] > 0 { p.stub_faults.push(StubFault { kind, nth: r.next() % c.stub_calls[kind as usize] }); } } }
        if s.prop == "C30" && r.chance(1, 4) { p.jumps.push(ClockJump { at_b: 1 + r.next() % c.b.max(1), delta_secs: jump(r) }); }
        p
    }).collect()
}

// ---- judging ----
pub fn names_of(m: &ModelSpec) -> BTreeSet<&'static str> { m.intent_defs().iter().map(|d| d.name).collect() }
fn text_of(op: &Op) -> String { let mut o = op.clone(); o.text_mut().cloned().unwrap_or_default() }
pub fn cut(s: &str) -> String { s.chars().take(600).collect() }
pub fn show(op: &Op) -> String { cut(&serde_json::to_string(op).unwrap()) }
fn score_ok(x: &Value) -> bool { x.as_f64().map(|f| f >= 0. && f <= 1.000_001).unwrap_or(false) }
/// (intent, slots) of an answer and of its alternatives
fn slot_lists(op: &Op, a: &Value) -> Vec<(Option<String>, Vec<Value>)> {
    let list = |x: &Value| x.as_array().cloned().unwrap_or_default();
    match op {
        Op::Parse { .. } => {
            let mut out = vec![(a["intent"]["intentName"].as_str().map(|s| s.to_string()), list(&a["slots"]))];
            for x in list(&a["alternatives"]) { out.push((x["intent"]["intentName"].as_str().map(|s| s.to_string()), list(&x["slots"]))); }
            out
        }
        Op::Slots { intent, .. } => vec![(Some(intent.clone()), list(a))],
        Op::Extract { intent, .. } => vec![(Some(intent.clone()), if a.is_null() { vec![] } else { vec![a.clone()] })],
        _ => vec![],
    }
}
fn kinds_of(entity: &str) -> Option<&'static [&'static str]> {
    Some(match entity {
        "snips/number" => &["Number"], "snips/datetime" => &["InstantTime", "TimeInterval"], "snips/duration" => &["Duration"], "snips/temperature" => &["Temperature"], "snips/ordinal" => &["Ordinal"],
        "snips/musicArtist" => &["MusicArtist"], "snips/city" => &["City"], e if !e.starts_with("snips/") => &["Custom"], _ => return None,
    })
}
fn bad_slots(spec: &Spec, op: &Op, a: &Value) -> Option<(&'static str, String)> {
    let text = text_of(op);
    let chars: Vec<char> = text.chars().collect();
    for (intent, slots) in slot_lists(op, a) {
        let mut taken: Vec<(usize, usize)> = vec![];
        let intent = match intent { Some(i) => i, None => { if !slots.is_empty() { return Some(("slot", "slots without an intent".to_string())); } continue; } };
        for s in &slots {
            let (from, to) = match (s["range"]["start"].as_u64(), s["range"]["end"].as_u64()) { (Some(x), Some(y)) => (x as usize, y as usize), _ => return Some(("range", format!("no range in {}", s))) };
            if from > to || to > chars.len() { return Some(("range", format!("range {}..{} in a text of {} characters: {}", from, to, chars.len(), s))); }
            let there: String = chars[from..to].iter().collect();
            if s["rawValue"].as_str() != Some(&there) { return Some(("raw", format!("raw value {} but the text at {}..{} is {:?}", s["rawValue"], from, to, there))); }
            if taken.iter().any(|t| t.0 < to && from < t.1) { return Some(("overlap", format!("slots overlap: {}", Value::Array(slots.clone())))); }
            taken.push((from, to));
            let (name, ent) = (s["slotName"].as_str().unwrap_or(""), s["entity"].as_str().unwrap_or(""));
            if model::entity_of(&intent, name) != Some(ent) { return Some(("slot", format!("intent {} has no slot {:?} with entity {:?}", intent, name, ent))); }
            if let Op::Extract { slot, .. } = op { if slot != name { return Some(("slot", format!("slot {:?} instead of {:?}", name, slot))); } }
            let mut values = vec![s["value"].clone()];
            values.extend(s["alternatives"].as_array().cloned().unwrap_or_default());
            for x in &values {
                if let Some(k) = kinds_of(ent) { if !k.contains(&x["kind"].as_str().unwrap_or("")) { return Some(("kind", format!("a value of kind {} for entity {}", x["kind"], ent))); } }
                if let Some(d) = model::ENTITIES.iter().find(|d| d.name == ent && !d.extensible) {
                    let got = x["value"].as_str().unwrap_or("").to_lowercase();
                    if !d.values.iter().any(|v| v.1 == got) && !injected(spec).iter().any(|v| v.0 == ent && v.1.to_lowercase() == got) { return Some(("closed", format!("{:?} is not a value of the closed entity {}", got, ent))); }
                }
            }
        }
    }
    None
}
fn answers<'a>(spec: &'a Spec, raw: &'a Raw) -> Vec<(String, &'a Op, &'a crate::runner::Rec)> {
    each(spec, raw).into_iter().filter(|x| is_call(x.3)).map(|(i, t, k, op, rec)| (format!("phase {} client {} operation {}", i, t, k), op, rec)).collect()
}
pub fn c30_judge(spec: &Spec, raw: &Raw, _ctx: &mut Ctx) -> Option<V> {
    for (who, op, rec) in answers(spec, raw) {
        let a = match parse_ok(&rec.r) { Some(a) => a, None => continue };
        if let Op::Parse { text, .. } = op { if a["input"].as_str() != Some(text) { return v("input", format!("{}: {} answered for the input {}", who, show(op), a["input"])); } }
        if let Some((class, what)) = bad_slots(spec, op, &a) { return v(class, format!("{}: {}: {} in {}", who, show(op), cut(&what), cut(&rec.r))); }
    }
    None
}
pub fn c31_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let all = names_of(&spec.model);
    for (who, op, rec) in answers(spec, raw) {
        let (wl, bl) = match op { Op::Parse { wl, bl, .. } => (wl, bl), _ => continue };
        let unknown = wl.iter().chain(bl).flatten().any(|n| !all.contains(n.as_str()));
        if unknown { if !rec.r.starts_with("ERR") { return v("unknown", format!("{}: {} names an intent the model does not have and answered {}", who, show(op), cut(&rec.r))); } continue; }
        let allowed: BTreeSet<&str> = all.iter().cloned().filter(|n| wl.as_ref().map(|w| w.iter().any(|x| x == n)).unwrap_or(true) && !bl.as_ref().map(|b| b.iter().any(|x| x == n)).unwrap_or(false)).collect();
        if rec.f > 0 && !rec.r.starts_with("OK") { continue; }
        let a = match parse_ok(&rec.r) { Some(a) => a, None => { if rec.f == 0 { let want = ctx.alone(spec, &Op::Parse { text: text_of(op), wl: None, bl: None, ia: 0, sa: 0, e: 0 }, spec.now); if want.starts_with("OK") { return v("refused", format!("{}: {} was refused: {}", who, show(op), cut(&rec.r))); } } continue; } };
        for (intent, _) in slot_lists(op, &a) { if let Some(i) = intent { if !allowed.contains(i.as_str()) { return v("excluded", format!("{}: {} gave the excluded intent {}: {}", who, show(op), i, cut(&rec.r))); } } }
        if rec.f > 0 { continue; }
        // the same set of intents, said in another way, must give the same answer
        if let Op::Parse { text, ia, sa, e, .. } = op {
            let same = |wl: Option<Vec<&str>>, bl: Option<Vec<&str>>| Op::Parse { text: text.clone(), wl: wl.map(|v| v.iter().map(|s| s.to_string()).collect()), bl: bl.map(|v| v.iter().map(|s| s.to_string()).collect()), ia: *ia, sa: *sa, e: *e };
            let other: Vec<&str> = all.difference(&allowed).cloned().collect();
            let mut ways = vec![same(Some(allowed.iter().cloned().collect()), None), same(None, Some(other))];
            if allowed.len() == all.len() { ways.push(same(None, None)); }
            for w in ways { let want = ctx.alone(spec, &w, spec.now); if want != rec.r { return v("equivalent", format!("{}: {} gave {} but {}, which admits the same intents, gives {}", who, show(op), cut(&rec.r), show(&w), cut(&want))); } }
        }
    }
    None
}
fn ranking(list: &[Value], all: &BTreeSet<&str>, name: fn(&Value) -> &Value) -> Option<String> {
    let mut seen = BTreeSet::new();
    let mut last = f64::INFINITY;
    for x in list {
        let i = name(x);
        if !score_ok(&i["confidenceScore"]) { return Some(format!("score {} out of range", i["confidenceScore"])); }
        let f = i["confidenceScore"].as_f64().unwrap();
        if f > last { return Some(format!("score {} after {}", f, last)); }
        last = f;
        if !i["intentName"].is_null() && !i["intentName"].as_str().map(|n| all.contains(n)).unwrap_or(false) { return Some(format!("unknown intent {}", i["intentName"])); }
        if !seen.insert(i["intentName"].to_string()) { return Some(format!("intent {} twice", i["intentName"])); }
    }
    None
}
pub fn c32_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let all = names_of(&spec.model);
    for (who, op, rec) in answers(spec, raw) {
        let a = match parse_ok(&rec.r) { Some(a) => a, None => continue };
        let at = |what: String| format!("{}: {}: {} in {}", who, show(op), what, cut(&rec.r));
        let sa = match op {
            Op::Intents { .. } => { if let Some(w) = ranking(a.as_array().map(|x| &x[..]).unwrap_or(&[]), &all, |x| x) { return v("ranking", at(w)); } continue; }
            Op::Parse { text, wl, bl, ia, sa, .. } => {
                if !score_ok(&a["intent"]["confidenceScore"]) { return v("ranking", at("score out of range".into())); }
                let alts = a["alternatives"].as_array().cloned().unwrap_or_default();
                if alts.len() > *ia { return v("count", at(format!("{} alternatives instead of at most {}", alts.len(), ia))); }
                if let Some(w) = ranking(&alts, &all, |x| &x["intent"]) { return v("ranking", at(w)); }
                if *ia > 0 && rec.f == 0 {
                    // The alternatives are the ranking without its first entry, each with the slots of its intent.
                    if let Some(full) = parse_ok(&ctx.alone(spec, &Op::Intents { text: text.clone(), e: 0 }, spec.now)) {
                        let ok = |n: &Value| n.as_str().map(|n| wl.as_ref().map(|w| w.iter().any(|x| x == n)).unwrap_or(true) && !bl.as_ref().map(|b| b.iter().any(|x| x == n)).unwrap_or(false)).unwrap_or(true);
                        let want: Vec<Value> = full.as_array().cloned().unwrap_or_default().into_iter().filter(|x| ok(&x["intentName"])).skip(1).take(*ia).collect();
                        let got: Vec<Value> = alts.iter().map(|x| x["intent"].clone()).collect();
                        if got != want { return v("alternatives", at(format!("alternatives {} but the ranking continues with {}", Value::Array(got), Value::Array(want)))); }
                    }
                    for x in &alts { if let Some(i) = x["intent"]["intentName"].as_str() {
                        let want = ctx.alone(spec, &Op::Slots { text: text.clone(), intent: i.into(), sa: *sa, e: 0 }, spec.now);
                        if let Some(w) = parse_ok(&want) { if w != x["slots"] { return v("alternatives", at(format!("slots {} of alternative {} but asking for them gives {}", x["slots"], i, w))); } }
                    } }
                }
                *sa
            }
            Op::Slots { sa, .. } | Op::Extract { sa, .. } => *sa,
            _ => 0,
        };
        for (_, slots) in slot_lists(op, &a) { for s in slots {
            let n = s["alternatives"].as_array().map(|l| l.len()).unwrap_or(0);
            if n > sa { return v("count", at(format!("{} alternative values instead of at most {}", n, sa))); }
            if !s["confidenceScore"].is_null() && !score_ok(&s["confidenceScore"]) { return v("ranking", at("slot score out of range".into())); }
        } }
    }
    None
}

// ---- C34 ----
fn wild_text(r: &mut Rng, s: &Spec) -> String {
    match r.below(13) {
        12 => { let d = s.model.intent_defs(); let ents: Vec<&str> = d.iter().flat_map(|d| d.slots.iter().map(|x| x.1)).collect(); if ents.is_empty() { return "many".into(); } let e = *r.pick(&ents); let n = 5 + r.below(19); let sep = *r.pick(&[" ", ", ", " and "]); (0..n).map(|_| { let x = if r.chance(1, 3) { *r.pick(&ents) } else { e }; model::entity_value(r, x) }).collect::<Vec<_>>().join(sep) }
        0 => String::new(),
        1 => r.pick(&[" ", "\n", "\t \r\n", "\u{a0}", "\u{3000}"]).repeat(1 + r.below(5)),
        2 => (0..1 + r.below(40)).map(|_| char::from_u32(r.next() as u32 % 0x11_0000).unwrap_or('\u{fffd}')).collect(),
        3 => (0..1 + r.below(60)).map(|_| (r.next() as u8 % 128) as char).collect(),
        4 => { let w = ["qq", "rr.", "ss", "é", "Ü", "-", "12x"]; (0..*r.pick(&[10usize, 20, 50])).map(|_| *r.pick(&w)).collect::<Vec<_>>().join(" ") }
        5 => if r.chance(1, 2) { r.pick(&["a", "日", "Z9", "ß"]).repeat(*r.pick(&[50usize, 5_000, 40_000])) } else { r.pick(&["%", "İ", "\u{301}", "🙂", "?", ". "]).repeat(*r.pick(&[1usize, 7, 50])) },
        6 => { let t = spoken(r, s); let e = *r.pick(&["%ROOM%", "%SNIPSNUMBER%", "%DEVICE%", "%%", "%TEMPERATURE%", "(?P<group0>", "\\", "[", "]:", "\u{0}", "\u{202e}"]); let mut w: Vec<&str> = t.split(' ').collect(); let i = r.below(w.len()); w[i] = e; w.join(" ") }
        7 => { let a = spoken(r, s); let b = spoken(r, s); format!("{} {}", a, b) }
        _ => { let t = spoken(r, s); odd(r, t) }
    }
}
fn wild_query(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let mut o = query(r, m, tx);
    match &mut o {
        Op::Parse { ia, sa, wl, .. } => { if r.chance(1, 4) { *ia = *r.pick(&[7usize, 1000, 1 << 31, usize::MAX >> 1, usize::MAX]); } if r.chance(1, 6) { *sa = *r.pick(&[7usize, 1000, 1 << 20]); } if r.chance(1, 12) { *wl = Some(vec![r.pick(&["", " ", "é", "make\u{0}coffee", "MAKECOFFEE"]).to_string()]); } }
        Op::Slots { intent, .. } => if r.chance(1, 5) { *intent = r.pick(&["", "MAKECOFFEE", "None", "null", "é"]).to_string(); },
        Op::Extract { slot, intent, text, .. } => { if r.chance(1, 5) { *slot = r.pick(&["", "ROOM", "nope", "\u{0}"]).to_string(); } if r.chance(1, 8) { *intent = r.pick(&["", "nobody"]).to_string(); } if r.chance(1, 2) { *text = r.pick(tx).clone(); } }
        _ => {}
    }
    o
}
pub fn c34_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C34", r, seed);
    let tx: Vec<String> = (0..2 + r.below(5)).map(|_| wild_text(r, &s)).collect();
    clients(r, &mut s, &tx, wild_query);
    let usual: Vec<String> = (0..2).map(|_| spoken(r, &s)).collect();
    s.post = (0..3).map(|_| query(r, &s.model, &usual)).collect();
    s
}
/// Crashes, panics and calls that do not return are judged in general; here: what must be refused is refused,
/// everything else is answered, and the engine answers as before afterwards.
pub fn c34_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let all = names_of(&spec.model);
    let n = raw.phases.len();
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) { continue; }
        let who = format!("phase {} client {} operation {}", i, t, k);
        if i + 1 == n && n > 2 { let want = ctx.alone(spec, op, spec.now); if rec.r != want { return v("answer", diff(&format!("{} (after the unusual calls)", who), op, &rec.r, &want)); } }
        let refuse = match op {
            Op::Parse { wl, bl, .. } => wl.iter().chain(bl).flatten().any(|x| !all.contains(x.as_str())),
            Op::Slots { intent, .. } => !all.contains(intent.as_str()),
            Op::Extract { intent, slot, .. } => !all.contains(intent.as_str()) || model::entity_of(intent, slot).is_none(),
            _ => false,
        };
        if refuse { if !rec.r.starts_with("ERR") { return v("accepted", format!("{}: {} names something the model does not have and answered {}", who, show(op), cut(&rec.r))); } }
        else if rec.f == 0 && !rec.r.starts_with("OK") { return v("refused", format!("{}: {} was refused: {}", who, show(op), cut(&rec.r))); }
    }
    None
}
#[allow(dead_code)] fn _k() -> usize { INTENTS.len() }
