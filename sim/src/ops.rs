//! What clients do: the operations of a simulated run and how they are carried out on the real code.
use crate::alloc::tracked;
use crate::model;
use crate::rt::{self, quiet};
use crate::runner::{Spec, World};
use crate::zipw::{SimReader, ZipSpec};
use ffi_utils::{CStringArray, SNIPS_RESULT};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use snips_nlu_ffi::*;
use snips_nlu_lib::injection::{NluInjectionErrorKind, NluInjector};
use snips_nlu_lib::{CRFSlotFiller, SlotFiller, SnipsNluEngine};
use snips_nlu_ontology::*;
use snips_nlu_ontology_ffi_macros::*;
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int};
use std::path::{Path, PathBuf};
use std::sync::Arc;

type Names = Option<Vec<String>>;
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "op")]
pub enum Op {
    Parse { text: String, #[serde(default)] wl: Names, #[serde(default)] bl: Names, #[serde(default)] ia: usize, #[serde(default)] sa: usize, #[serde(default)] e: usize },
    Intents { text: String, #[serde(default)] e: usize },
    Slots { text: String, intent: String, #[serde(default)] sa: usize, #[serde(default)] e: usize },
    Extract { text: String, intent: String, slot: String, #[serde(default)] sa: usize, #[serde(default)] e: usize },
    /// sequence tagger of an intent, directly
    Fill { intent: String, text: String },
    Prob { intent: String, text: String, tags: Vec<String> },
    /// what the sequence tagger of an intent is told about a sentence
    Feats { intent: String, text: String },
    /// which tokens the entities of an intent match (reference for the above)
    Ents { intent: String, text: String },
    /// one parser of the model on its own (reference)
    Sole { p: u8, call: Box<Op> },
    /// what the entity parsers recognise in a text, per intent (reference)
    Found { text: String },
    /// what the entity parsers give for one entity in a text (reference)
    Place { text: String, entity: String, sa: usize },
    /// the scores an independent reading of the model gives to a sentence (reference)
    Classify { text: String },
    /// what an independent reading of the model tells its sequence model about a sentence (reference)
    Tell { intent: String, text: String, tags: Vec<String> },
    /// the shared entity parsers, directly
    Spot { text: String, kinds: Names, builtin: bool, cached: bool, sa: usize },
    /// what the parsers beneath recognise (reference)
    Seek { text: String, kinds: Names, builtin: bool, sa: usize },
    LoadFillers,
    Load { e: usize, #[serde(default = "model_dir")] dir: String },
    LoadZip { e: usize, zip: ZipSpec },
    Drop { e: usize },
    /// the directory gets the files of the k-th model (0: the model itself), whatever it had
    Update { dir: String, k: usize },
    Inject { values: Vec<(String, String)>, #[serde(default)] vanilla: bool, #[serde(default)] shared: bool },
    /// what each entity recognises, read back from disk with the real loading code
    Fp,
    /// content of the model directory
    Snap,
    /// content of the temporary directory and of the canary files
    TmpSnap,
    Damage { d: Damage },
    Jump { delta: i64 },
    Ffi { h: usize, call: Box<Op>, #[serde(default)] json: bool, #[serde(default)] plain: bool, #[serde(default)] hold: bool },
    FfiCreate { h: usize, #[serde(default)] zip: Option<ZipSpec>, #[serde(default = "model_dir")] dir: String },
    FfiDestroy { h: usize },
    FfiVersion { #[serde(default)] hold: bool },
    /// calls that must fail without touching anything: null handle, null or non UTF-8 text
    FfiBad { kind: u32, h: usize, text: String },
    FfiLastError,
    /// a query through the Python wrapper; with `defaults` the numbers of alternatives are left to it
    Py { h: usize, call: Box<Op>, #[serde(default)] defaults: bool },
    PyCreate { h: usize, #[serde(default)] zip: Option<ZipSpec>, #[serde(default = "model_dir")] dir: String },
    PyDrop { h: usize },
    /// calls that must raise: no model, names that are not strings, no archive, no directory
    PyBad { kind: u32, h: usize, text: String },
    /// give the k-th held object back
    Release { k: usize },
    Mem,
    /// writes the gazetteers as they should be after injections: (entity, injected values)
    Put { lists: Vec<(String, Vec<(String, String)>)> },
    /// give everything back: held objects, handles, engines
    ReleaseAll,
}
fn model_dir() -> String { "model".into() }

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
#[serde(tag = "damage")]
pub enum Damage {
    Truncate { file: usize, permille: u32 },
    Flip { file: usize, permille: u32, bit: u8 },
    Overwrite { file: usize, permille: u32, len: usize, byte: u8 },
    Empty { file: usize },
    Remove { file: usize },
    /// replace the k-th scalar/array/object of a JSON file by something else
    Json { file: usize, node: usize, with: u8 },
    /// drop the k-th element of a line or of the lines of a text file
    Line { file: usize, line: usize, how: u8 },
    Swap { file: usize, other: usize },
    Version { v: String },
    RemoveAll,
}
pub const UNSET: usize = 0x5EA7_1E55;

impl Op {
    pub fn engine(&self) -> Option<usize> { match self { Op::Parse { e, .. } | Op::Intents { e, .. } | Op::Slots { e, .. } | Op::Extract { e, .. } => Some(*e), _ => None } }
    pub fn with_engine(&self, k: usize) -> Op { let mut o = self.clone(); match &mut o { Op::Parse { e, .. } | Op::Intents { e, .. } | Op::Slots { e, .. } | Op::Extract { e, .. } => *e = k, _ => {} } o }
    pub fn text_mut(&mut self) -> Option<&mut String> {
        match self { Op::Parse { text, .. } | Op::Intents { text, .. } | Op::Slots { text, .. } | Op::Extract { text, .. } | Op::Fill { text, .. } | Op::Feats { text, .. } | Op::Prob { text, .. } | Op::Spot { text, .. } => Some(text), Op::Ffi { call, .. } | Op::Py { call, .. } => call.text_mut(), _ => None }
    }
    pub fn simpler(&self) -> Vec<Op> {
        let mut out = vec![];
        match self {
            Op::Parse { text, wl, bl, ia, sa, e } => {
                let mk = |wl: &Names, bl: &Names, ia, sa| Op::Parse { text: text.clone(), wl: wl.clone(), bl: bl.clone(), ia, sa, e: *e };
                if wl.is_some() { out.push(mk(&None, bl, *ia, *sa)); }
                if bl.is_some() { out.push(mk(wl, &None, *ia, *sa)); }
                if *ia > 0 { out.push(mk(wl, bl, 0, *sa)); }
                if *sa > 0 { out.push(mk(wl, bl, *ia, 0)); }
            }
            Op::Inject { values, vanilla, shared } => { if values.len() > 1 { for i in 0..values.len() { let mut v = values.clone(); v.remove(i); out.push(Op::Inject { values: v, vanilla: *vanilla, shared: *shared }); } } }
            Op::LoadZip { e, zip } => {
                let mut z = zip.clone();
                if !z.evil.is_empty() { for i in 0..z.evil.len() { let mut y = z.clone(); y.evil.remove(i); out.push(Op::LoadZip { e: *e, zip: y }); } }
                if z.dirs { z.dirs = false; out.push(Op::LoadZip { e: *e, zip: z.clone() }); }
                if zip.reader.chunk > 0 { let mut y = zip.clone(); y.reader.chunk = 0; out.push(Op::LoadZip { e: *e, zip: y }); }
                if zip.reader.intr > 0 { let mut y = zip.clone(); y.reader.intr = 0; out.push(Op::LoadZip { e: *e, zip: y }); }
            }
            _ => {}
        }
        if let Some(Some(t)) = { let mut o = self.clone(); o.text_mut().map(|t| Some(t.clone())) } {
            let w: Vec<&str> = t.split(' ').collect();
            if w.len() > 1 { for i in 0..w.len().min(8) { let mut v = w.clone(); v.remove(i); let mut o = self.clone(); *o.text_mut().unwrap() = v.join(" "); out.push(o); } }
        }
        out
    }
}

fn panic_msg(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() }
}
pub fn chain(e: &failure::Error) -> String { e.iter_chain().map(|c| c.to_string()).collect::<Vec<_>>().join(" | ") }

/// Runs a call of the code under test; its allocations are tracked, a panic becomes a result.
fn call<T>(f: impl FnOnce() -> Result<T, failure::Error>, show: impl FnOnce(&T) -> String) -> String {
    let r = tracked(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
    match r {
        Ok(Ok(v)) => { let s = quiet(|| format!("OK {}", show(&v))); drop(v); s }
        Ok(Err(e)) => { let s = quiet(|| format!("ERR {}", chain(&e))); drop(e); s }
        Err(p) => { let s = quiet(|| format!("PANIC {}", panic_msg(&*p))); drop(p); s }
    }
}
fn js<T: Serialize>(v: &T) -> String { serde_json::to_string(v).unwrap_or_else(|e| format!("unserialisable: {}", e)) }
pub fn scrub(w: &World, s: String) -> String { s.replace(&w.root, "$R") }

pub fn exec(op: &Op) -> String {
    let w: &'static mut World = crate::runner::world();
    let r = exec_(crate::runner::world(), op);
    quiet(|| scrub(w, r))
}
fn strs(v: &Names) -> Option<Vec<&str>> { v.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect()) }

fn exec_(w: &'static mut World, op: &Op) -> String {
    if let Some(e) = op.engine() {
        let eng: Arc<SnipsNluEngine> = match quiet(|| w.engines.get(&e).cloned()) { Some(x) => x, None => return "NOENGINE".into() };
        let r = match op {
            Op::Parse { text, wl, bl, ia, sa, .. } => { let (a, b) = quiet(|| (strs(wl), strs(bl))); if *ia == 0 && *sa == 0 && text.len() % 2 == 0 { call(|| eng.parse(text, a, b), js) } else { call(|| eng.parse_with_alternatives(text, a, b, *ia, *sa), js) } }
            Op::Intents { text, .. } => call(|| eng.get_intents(text), js),
            Op::Slots { text, intent, sa, .. } => if *sa == 0 { call(|| eng.get_slots(text, intent), js) } else { call(|| eng.get_slots_with_alternatives(text, intent, *sa), js) },
            Op::Extract { text, intent, slot, sa, .. } => { let (t, i, s) = (text.clone(), intent, slot.clone()); if *sa == 0 { call(move || eng_extract(&eng, t, i, s, 0), js) } else { let k = *sa; call(move || eng_extract(&eng, t, i, s, k), js) } }
            _ => unreachable!(),
        };
        return r;
    }
    match op {
        Op::LoadFillers => quiet_load_fillers(w),
        Op::Fill { intent, text } => match quiet(|| w.fillers.get(intent).cloned()) { None => "NOFILLER".into(), Some(f) => call(|| f.get_slots(text), |v| json!(v.iter().map(|s| json!({"slot": s.slot_name, "entity": s.entity, "value": s.value, "start": s.char_range.start, "end": s.char_range.end})).collect::<Vec<_>>()).to_string()) },
        Op::Feats { intent, text } => match quiet(|| w.fillers.get(intent).cloned()) { None => "NOFILLER".into(), Some(f) => call(|| f.compute_features(text), js) },
        Op::Ents { intent, text } => crate::tags::ents(w, intent, text),
        Op::Sole { p, call } => crate::compose::sole(w, *p, call),
        Op::Found { text } => crate::compose::found(w, text),
        Op::Place { text, entity, sa } => crate::compose::place(w, text, entity, *sa),
        Op::Spot { text, kinds, builtin, cached, sa } => call(|| crate::refmodel::spot(w, text, kinds, *builtin, *cached, *sa), |v| v.to_string()),
        Op::Seek { text, kinds, builtin, sa } => crate::refmodel::seek(w, text, kinds, *builtin, *sa),
        Op::Classify { text } => crate::refmodel::classify(w, text),
        Op::Tell { intent, text, tags } => crate::refmodel::tell(w, intent, text, tags),
        Op::Prob { intent, text, tags } => match quiet(|| w.fillers.get(intent).cloned()) {
            None => "NOFILLER".into(),
            Some(f) => {
                let (toks, tags) = quiet(|| { let t = snips_nlu_utils::token::tokenize(text, snips_nlu_utils::language::Language::EN); let mut g = tags.clone(); g.resize(t.len(), "O".to_string()); (t, g) });
                call(|| f.get_sequence_probability(&toks, tags), |v| format!("{:?}", v))
            }
        },
        Op::Load { e, dir } => {
            let p = quiet(|| Path::new(&w.root).join(dir));
            load_into(w, *e, || SnipsNluEngine::from_path(p))
        }
        Op::LoadZip { e, zip } => {
            let (rd, failed, reads) = quiet(|| { let r = SimReader::new(crate::zipw::build(zip, &w.zip_files(zip)), zip.reader.clone()); let (f, n) = (r.failed.clone(), r.reads.clone()); (r, f, n) });
            let r = load_into(w, *e, move || SnipsNluEngine::from_zip(rd));
            quiet(|| { w.reader_failures += failed.get(); w.reader_reads.push(reads.get()); });
            r
        }
        Op::Drop { e } => { let x = quiet(|| w.engines.remove(e)); call(|| { drop(x); Ok(()) }, |_| String::new()) }
        Op::Update { dir, k } => quiet(|| {
            let p = Path::new(&w.root).join(dir);
            let _ = std::fs::remove_dir_all(&p);
            model::write(if *k == 0 { &w.spec.model } else { &w.spec.others[k - 1] }, &p);
            "OK".into()
        }),
        Op::Inject { values, vanilla, shared } => {
            let dir = quiet(|| Path::new(&w.root).join("model"));
            let sr = if *shared { quiet(|| w.shared.clone()) } else { None };
            let r = tracked(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut inj = NluInjector::new(dir).from_vanilla(*vanilla);
                if let Some(s) = sr { inj = inj.shared_resources(s); }
                for (e, v) in values { inj = inj.add_value(e.clone(), v.clone()); }
                inj.inject()
            })));
            quiet(|| match r {
                Ok(Ok(())) => "OK".to_string(),
                Ok(Err(e)) => format!("ERR {}", chain(&failure::Error::from(e))),
                Err(p) => format!("PANIC {}", panic_msg(&*p)),
            })
        }
        Op::Fp => fingerprint(w),
        Op::Snap => quiet(|| format!("OK {}", js(&snapshot(&Path::new(&w.root).join("model"))))),
        Op::TmpSnap => quiet(|| { let r = Path::new(&w.root); format!("OK {}", json!({ "tmp": snapshot(&r.join("tmp")), "canary": std::fs::read_to_string(r.join("canary.txt")).unwrap_or_default(), "top": names(r) })) }),
        Op::Damage { d } => quiet(|| { damage(w, d); "OK".into() }),
        Op::Jump { delta } => quiet(|| { rt::sim().jump(*delta); "OK".into() }),
        Op::Mem => quiet(|| { let (c, b) = crate::alloc::live(); format!("OK {} {}", c, b) }),
        Op::Ffi { h, call, json, plain, hold } => ffi_call(w, *h, call, *json, *plain, *hold),
        Op::FfiCreate { h, zip, dir } => ffi_create(w, *h, zip, dir),
        Op::FfiDestroy { h } => match quiet(|| w.handles.remove(h)) { None => "NOHANDLE".into(), Some(p) => ffi_done(tracked(|| snips_nlu_engine_destroy_client(p as *mut _)), UNSET, true) },
        Op::FfiVersion { hold } => {
            let mut out = UNSET;
            let r = tracked(|| snips_nlu_engine_get_model_version(&mut out as *mut usize as *mut *const c_char));
            if r == SNIPS_RESULT::SNIPS_RESULT_OK { finish(w, Kind::Str, out, *hold) } else { ffi_done(r, out, false) }
        }
        Op::FfiBad { kind, h, text } => ffi_bad(w, *kind, *h, text),
        Op::FfiLastError => last_error(),
        Op::Py { .. } | Op::PyDrop { .. } | Op::PyBad { .. } => { let v = quiet(|| serde_json::to_value(op).unwrap()); let r = crate::pyhost::call(&v); quiet(|| { drop(v); r }) }
        Op::PyCreate { h, zip, dir } => {
            let v = quiet(|| match zip { Some(z) => json!({"op": "PyCreate", "h": h, "bytes": crate::zipw::build(z, &w.files()).iter().map(|b| format!("{:02x}", b)).collect::<String>()}), None => json!({"op": "PyCreate", "h": h, "path": format!("{}/{}", w.root, dir)}) });
            let r = crate::pyhost::call(&v);
            quiet(|| { drop(v); r })
        }
        Op::Release { k } => {
            let o = quiet(|| if w.held.is_empty() { None } else { let i = k % w.held.len(); Some(w.held.remove(i)) });
            match o { None => "NOTHING".into(), Some(o) => give_back(o) }
        }
        Op::Put { lists } => quiet(|| { put(w, lists); "OK".into() }),
        Op::ReleaseAll => release_all(w),
        _ => unreachable!(),
    }
}
fn release_all(w: &mut World) -> String {
    if crate::pyhost::hosted() { let v = quiet(|| json!({"op": "Clear"})); crate::pyhost::call(&v); quiet(|| drop(v)); }
    let held = quiet(|| std::mem::take(&mut w.held));
    let mut out = "OK".to_string();
    for o in held { let r = give_back(o); if r != "OK" { out = r; } }
    let hs: Vec<usize> = quiet(|| std::mem::take(&mut w.handles).into_values().collect());
    for h in hs { let r = tracked(|| snips_nlu_engine_destroy_client(h as *mut _)); if r != SNIPS_RESULT::SNIPS_RESULT_OK { out = "BAD destroying a handle failed".into(); } }
    let es: Vec<Arc<SnipsNluEngine>> = quiet(|| std::mem::take(&mut w.engines).into_values().collect());
    drop(es);
    let fs: Vec<Arc<CRFSlotFiller>> = quiet(|| std::mem::take(&mut w.fillers).into_values().collect());
    drop(fs);
    let sh = quiet(|| w.shared.take());
    drop(sh);
    out
}
fn put(w: &World, lists: &[(String, Vec<(String, String)>)]) {
    let m = &w.spec.model;
    for (e, l) in lists {
        let dir = match model::entity_parser_dir(m, e) { Some(d) => Path::new(&w.root).join("model").join(d), None => continue };
        let usage = if e.starts_with("snips/") { 1 } else { m.usage };
        let def = model::ENTITIES.iter().chain(model::BUILTIN_GAZ).find(|d| d.name == e).unwrap();
        let own: Vec<(String, String)> = def.values.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        std::fs::write(dir.join("parser"), model::gazetteer_bytes(l, &model::usage_values(usage, &own))).expect("put");
    }
}
fn eng_extract(eng: &SnipsNluEngine, t: String, i: &str, s: String, k: usize) -> Result<Option<Slot>, failure::Error> {
    if k == 0 { eng.extract_slot(t, i, &s) } else { eng.extract_slot_with_alternatives(t, i, &s, k) }
}
fn load_into(w: &mut World, e: usize, f: impl FnOnce() -> Result<SnipsNluEngine, failure::Error>) -> String {
    let r = tracked(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
    match r {
        Ok(Ok(v)) => { let v = tracked(|| Arc::new(v)); quiet(|| { let old = w.engines.insert(e, v); std::mem::forget(old); "OK".into() }) }
        Ok(Err(e)) => { let s = quiet(|| format!("ERR {}", chain(&e))); drop(e); s }
        Err(p) => quiet(|| format!("PANIC {}", panic_msg(&*p))),
    }
}
fn quiet_load_fillers(w: &mut World) -> String {
    let root = Path::new(&w.root).join("model");
    let res = match snips_nlu_lib::load_shared_resources(root.join("resources").join(w.spec.model.lang()), root.join("builtin_entity_parser"), root.join("custom_entity_parser")) { Ok(r) => r, Err(e) => return format!("ERR {}", chain(&e)) };
    for (i, d) in w.spec.model.intent_defs().iter().enumerate() {
        let p = root.join(format!("probabilistic_intent_parser/slot_filler_{}", i));
        if !p.exists() { continue; }
        match CRFSlotFiller::from_path(&p, res.clone()) { Ok(f) => { w.fillers.insert(d.name.to_string(), Arc::new(f)); } Err(e) => return format!("ERR {}", chain(&e)) }
    }
    w.shared = Some(res);
    "OK".into()
}

// ---- reading models back ----
/// Candidate texts per entity: trained values and everything any injection of the run mentions.
pub fn candidates(s: &Spec) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for e in model::custom_entities(&s.model) { m.insert(e.name.into(), e.values.iter().map(|v| v.0.to_string()).collect()); }
    if s.model.builtin_gaz { for e in model::BUILTIN_GAZ { m.insert(e.name.into(), e.values.iter().map(|v| v.0.to_string()).collect()); } }
    for op in s.all_ops() { if let Op::Inject { values, .. } = op { for (e, v) in values { if let Some(l) = m.get_mut(e) { l.push(v.to_lowercase()); } } } }
    for (e, v) in &s.candidates { if let Some(l) = m.get_mut(e) { l.push(v.to_lowercase()); } }
    for l in m.values_mut() { let st: Vec<String> = l.iter().map(|v| model::stem_value(v)).collect(); l.extend(st); l.sort(); l.dedup(); }
    m
}
fn fingerprint(w: &mut World) -> String {
    let root = quiet(|| Path::new(&w.root).join("model"));
    let spec = &w.spec;
    let cand = quiet(|| candidates(spec));
    let r = tracked(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<BTreeMap<String, Vec<String>>, failure::Error> {
        let eng = SnipsNluEngine::from_path(&root)?;
        drop(eng);
        let res = snips_nlu_lib::load_shared_resources(root.join("resources").join(w.spec.model.lang()), root.join("builtin_entity_parser"), root.join("custom_entity_parser"))?;
        let mut out = BTreeMap::new();
        for (e, texts) in &cand {
            let mut l = vec![];
            for t in texts {
                l.push(if e.starts_with("snips/") {
                    let k = BuiltinEntityKind::from_identifier(e)?;
                    let found = res.builtin_entity_parser.extract_entities(t, Some(&[k]), false, 6)?;
                    quiet(|| found.iter().map(|f| format!("{:?} {:?} {:?} {:?}", f.value, f.range, f.entity, f.alternatives)).collect::<Vec<_>>().join("; "))
                } else {
                    let found = res.custom_entity_parser.extract_entities(t, Some(std::slice::from_ref(e)), 6)?;
                    quiet(|| found.iter().map(|f| format!("{:?} {:?} {:?} {:?}", f.value, f.range, f.resolved_value, f.alternative_resolved_values)).collect::<Vec<_>>().join("; "))
                });
            }
            quiet(|| out.insert(e.clone(), texts.iter().zip(l).map(|(t, r)| format!("{} => {}", t, r)).collect()));
        }
        Ok(out)
    })));
    quiet(|| match r { Ok(Ok(v)) => format!("OK {}", js(&v)), Ok(Err(e)) => format!("ERR {}", chain(&e)), Err(p) => format!("PANIC {}", panic_msg(&*p)) })
}
pub fn names(p: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(p).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
pub fn walk(p: &Path) -> Vec<(String, Vec<u8>)> {
    fn go(base: &Path, p: &Path, out: &mut Vec<(String, Vec<u8>)>) {
        for n in names(p) {
            let q = p.join(&n);
            if q.is_dir() { let b = out.len(); go(base, &q, out); if out.len() == b { out.push((q.strip_prefix(base).unwrap().to_string_lossy().into_owned() + "/", vec![])); } }
            else { out.push((q.strip_prefix(base).unwrap().to_string_lossy().into_owned(), std::fs::read(&q).unwrap_or_default())); }
        }
    }
    let mut out = vec![];
    go(p, p, &mut out);
    out
}
pub fn snapshot(p: &Path) -> BTreeMap<String, String> {
    walk(p).into_iter().map(|(n, d)| { let mut h = crc32fast::Hasher::new(); h.update(&d); (n, format!("{}:{:08x}", d.len(), h.finalize())) }).collect()
}

// ---- damage ----
fn json_nodes(v: &mut Value, k: &mut usize, with: u8) -> bool {
    if *k == 0 {
        *v = match with % 15 { 0 => Value::Null, 1 => json!([]), 2 => json!({}), 3 => json!(""), 4 => json!(-1), 5 => json!(1e300), 6 => json!([[]]), 7 => json!(99999999), 8 => json!("é%(["), 9 => json!(true), 10 => json!([null]),
            14 => match v { Value::Number(n) if n.is_f64() => json!(3e38), Value::Number(_) => json!(u64::MAX), _ => json!(2147483647) },
            12 => match v.clone() { Value::Array(mut a) if !a.is_empty() => { let x = a[0].clone(); a.push(x); Value::Array(a) } Value::Object(o) if !o.is_empty() => Value::Object(o.into_iter().enumerate().map(|(i, (k, x))| (if i == 0 { format!("{}1", k) } else { k }, x)).collect()), Value::String(s) => json!(format!("{}1", s)), Value::Number(n) => json!(n.as_i64().unwrap_or(1) + 1), x => x },
            13 => match v.clone() { Value::Array(mut a) if a.len() > 1 => { a.remove(0); Value::Array(a) } Value::Object(o) if !o.is_empty() => Value::Object(o.into_iter().skip(1).collect()), Value::String(s) => json!(s.chars().skip(1).collect::<String>()), Value::Number(n) => json!(n.as_i64().unwrap_or(1) * 10 + 3), x => x },
            _ => match v.clone() { Value::Array(mut a) if a.len() > 1 => { a.pop(); Value::Array(a) } Value::Object(mut o) if o.len() > 1 => { let key = o.keys().next().unwrap().clone(); o.remove(&key); Value::Object(o) } Value::String(s) => json!(s.chars().rev().collect::<String>()), Value::Number(_) => json!(7), _ => Value::Null } };
        return true;
    }
    *k -= 1;
    match v {
        Value::Array(a) => { for x in a.iter_mut() { if json_nodes(x, k, with) { return true; } } false }
        Value::Object(o) => { for (_, x) in o.iter_mut() { if json_nodes(x, k, with) { return true; } } false }
        _ => false,
    }
}
fn json_count(v: &Value) -> usize { 1 + match v { Value::Array(a) => a.iter().map(json_count).sum(), Value::Object(o) => o.values().map(json_count).sum(), _ => 0 } }
pub fn damage(w: &World, d: &Damage) {
    let root = Path::new(&w.root).join("model");
    if let Damage::RemoveAll = d { let _ = std::fs::remove_dir_all(&root); return; }
    let files: Vec<(String, Vec<u8>)> = walk(&root).into_iter().filter(|f| !f.0.ends_with('/')).collect();
    if files.is_empty() { return; }
    let put = |i: usize, data: &[u8]| { let _ = std::fs::write(root.join(&files[i].0), data); };
    let at = |i: usize, pm: u32| if files[i].1.is_empty() { 0 } else { ((files[i].1.len() as u64 * u64::from(pm)) / 1000).min(files[i].1.len() as u64 - 1) as usize };
    match d {
        Damage::Truncate { file, permille } => { let i = file % files.len(); put(i, &files[i].1[..at(i, *permille)]); }
        Damage::Flip { file, permille, bit } => { let i = file % files.len(); let mut v = files[i].1.clone(); if !v.is_empty() { v[at(i, *permille)] ^= 1 << (bit & 7); put(i, &v); } }
        Damage::Overwrite { file, permille, len, byte } => { let i = file % files.len(); let mut v = files[i].1.clone(); let a = at(i, *permille); let n = v.len(); for b in v[a..n.min(a + len)].iter_mut() { *b = *byte; } put(i, &v); }
        Damage::Empty { file } => put(file % files.len(), b""),
        Damage::Remove { file } => { let _ = std::fs::remove_file(root.join(&files[file % files.len()].0)); }
        Damage::Json { file, node, with } => {
            let js: Vec<usize> = (0..files.len()).filter(|i| files[*i].0.ends_with(".json")).collect();
            let i = js[file % js.len()];
            if let Ok(mut v) = serde_json::from_slice::<Value>(&files[i].1) { let mut k = node % json_count(&v); json_nodes(&mut v, &mut k, *with); put(i, &serde_json::to_vec(&v).unwrap()); }
        }
        Damage::Line { file, line, how } => {
            let ts: Vec<usize> = (0..files.len()).filter(|i| files[*i].0.ends_with(".txt")).collect();
            if ts.is_empty() { return; }
            let i = ts[file % ts.len()];
            let t = String::from_utf8_lossy(&files[i].1).into_owned();
            let mut l: Vec<String> = t.lines().map(|s| s.to_string()).collect();
            if l.is_empty() { return; }
            let k = line % l.len();
            match how % 7 { 0 => { l[k] = String::new(); } 1 => { l[k] = ",".into(); } 2 => { l[k] = "\t".into(); } 3 => { l[k] = l[k].replace('\t', " "); } 4 => { l[k] = "\u{0}é\",\"".into(); } 5 => { let h = l[k].chars().count() / 2; l[k] = l[k].chars().take(h).collect(); } _ => { let x = l[k].clone(); l[k].push_str(",,\t"); l.insert(k, x); } }
            put(i, l.join("\n").as_bytes());
        }
        Damage::Swap { file, other } => { let (i, j) = (file % files.len(), other % files.len()); put(i, &files[j].1); }
        Damage::Version { v } => { let p = root.join("nlu_engine.json"); if let Some(mut j) = std::fs::read(&p).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) { if j.is_object() { j["model_version"] = json!(v); let _ = std::fs::write(&p, serde_json::to_vec(&j).unwrap()); } } }
        Damage::RemoveAll => {}
    }
}

// ---- the C interface ----
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind { Str, Result, Slots, Intents }
pub struct Held { kind: Kind, ptr: usize, text: String }

unsafe fn cs(p: *const c_char) -> String { if p.is_null() { "<null>".into() } else { CStr::from_ptr(p).to_string_lossy().into_owned() } }
unsafe fn cso(p: *const c_char) -> Option<String> { if p.is_null() { None } else { Some(cs(p)) } }
unsafe fn arr<'a, T>(p: *const T, n: c_int) -> &'a [T] { if n <= 0 { &[] } else { std::slice::from_raw_parts(p, n as usize) } }
fn grain(g: SNIPS_GRAIN) -> Grain { match g as i32 { 0 => Grain::Year, 1 => Grain::Quarter, 2 => Grain::Month, 3 => Grain::Week, 4 => Grain::Day, 5 => Grain::Hour, 6 => Grain::Minute, _ => Grain::Second } }
fn precision(p: SNIPS_PRECISION) -> Precision { if p as i32 == 0 { Precision::Approximate } else { Precision::Exact } }
unsafe fn value(v: &CSlotValue) -> SlotValue {
    use SNIPS_SLOT_VALUE_TYPE as T;
    let s = || StringValue { value: cs(v.value as *const c_char) };
    match v.value_type {
        T::CUSTOM => SlotValue::Custom(s()), T::MUSICALBUM => SlotValue::MusicAlbum(s()), T::MUSICARTIST => SlotValue::MusicArtist(s()), T::MUSICTRACK => SlotValue::MusicTrack(s()),
        T::CITY => SlotValue::City(s()), T::COUNTRY => SlotValue::Country(s()), T::REGION => SlotValue::Region(s()),
        T::NUMBER => SlotValue::Number(NumberValue { value: *(v.value as *const f64) }), T::ORDINAL => SlotValue::Ordinal(OrdinalValue { value: *(v.value as *const i64) }), T::PERCENTAGE => SlotValue::Percentage(PercentageValue { value: *(v.value as *const f64) }),
        T::INSTANTTIME => { let x = &*(v.value as *const CInstantTimeValue); SlotValue::InstantTime(InstantTimeValue { value: cs(x.value), grain: grain(x.grain), precision: precision(x.precision) }) }
        T::TIMEINTERVAL => { let x = &*(v.value as *const CTimeIntervalValue); SlotValue::TimeInterval(TimeIntervalValue { from: cso(x.from), to: cso(x.to) }) }
        T::AMOUNTOFMONEY => { let x = &*(v.value as *const CAmountOfMoneyValue); SlotValue::AmountOfMoney(AmountOfMoneyValue { value: x.value, precision: precision(x.precision), unit: cso(x.unit) }) }
        T::TEMPERATURE => { let x = &*(v.value as *const CTemperatureValue); SlotValue::Temperature(TemperatureValue { value: x.value, unit: cso(x.unit) }) }
        T::DURATION => { let x = &*(v.value as *const CDurationValue); SlotValue::Duration(DurationValue { years: x.years, quarters: x.quarters, months: x.months, weeks: x.weeks, days: x.days, hours: x.hours, minutes: x.minutes, seconds: x.seconds, precision: precision(x.precision) }) }
    }
}
unsafe fn slots(l: &CSlotList) -> Vec<Slot> {
    arr(l.slots, l.size).iter().map(|s| Slot {
        raw_value: cs(s.raw_value), value: value(&*s.value), alternatives: arr((*s.alternatives).slot_values, (*s.alternatives).size).iter().map(|v| value(v)).collect(),
        range: s.range_start as usize..s.range_end as usize, entity: cs(s.entity), slot_name: cs(s.slot_name), confidence_score: if s.confidence_score < 0. { None } else { Some(s.confidence_score) },
    }).collect()
}
unsafe fn intent(i: &CIntentClassifierResult) -> IntentClassifierResult { IntentClassifierResult { intent_name: cso(i.intent_name), confidence_score: i.confidence_score } }
unsafe fn show(kind: Kind, p: usize) -> String {
    match kind {
        Kind::Str => cs(p as *const c_char),
        Kind::Slots => js(&slots(&*(p as *const CSlotList))),
        Kind::Intents => { let a = &*(p as *const CIntentClassifierResultArray); js(&arr(a.intent_classifier_results, a.size).iter().map(|i| intent(i)).collect::<Vec<_>>()) }
        Kind::Result => {
            let r = &*(p as *const CIntentParserResult);
            let alts = &*r.alternatives;
            js(&IntentParserResult { input: cs(r.input), intent: intent(&*r.intent), slots: slots(&*r.slots),
                alternatives: arr(alts.intent_parser_alternatives, alts.size).iter().map(|a| IntentParserAlternative { intent: intent(&*a.intent), slots: slots(&*a.slots) }).collect() })
        }
    }
}
fn destroy(kind: Kind, p: usize) -> SNIPS_RESULT {
    tracked(|| match kind {
        Kind::Str => snips_nlu_engine_destroy_string(p as *mut _),
        Kind::Result => snips_nlu_engine_destroy_result(p as *mut _),
        Kind::Slots => snips_nlu_engine_destroy_slots(p as *mut _),
        Kind::Intents => snips_nlu_engine_destroy_intent_classifier_results(p as *mut _),
    })
}
fn finish(w: &mut World, kind: Kind, p: usize, hold: bool) -> String {
    if p == UNSET { return "OK but nothing was stored".into(); }
    let text = quiet(|| unsafe { show(kind, p) });
    if hold { return quiet(|| { w.held.push(Held { kind, ptr: p, text: text.clone() }); format!("OK {}", text) }); }
    let r = destroy(kind, p);
    quiet(|| if r == SNIPS_RESULT::SNIPS_RESULT_OK { format!("OK {}", text) } else { format!("BAD destroy failed after OK {}", text) })
}
fn give_back(o: Held) -> String {
    let now = quiet(|| unsafe { show(o.kind, o.ptr) });
    let same = now == o.text;
    let r = destroy(o.kind, o.ptr);
    quiet(|| if !same { format!("BAD held object changed: {} became {}", o.text, now) } else if r != SNIPS_RESULT::SNIPS_RESULT_OK { format!("BAD destroy failed for {}", o.text) } else { "OK".into() })
}
fn last_error() -> String {
    let mut out = UNSET;
    let r = tracked(|| snips_nlu_engine_get_last_error(&mut out as *mut usize as *mut *const c_char));
    if r != SNIPS_RESULT::SNIPS_RESULT_OK || out == UNSET { return quiet(|| "BAD get_last_error failed".into()); }
    let s = quiet(|| unsafe { cs(out as *const c_char) });
    destroy(Kind::Str, out);
    quiet(|| format!("ERR {}", s))
}
fn ffi_done(r: SNIPS_RESULT, out: usize, plain: bool) -> String {
    if r == SNIPS_RESULT::SNIPS_RESULT_OK { return "OK".into(); }
    rt::yield_now(0x60);
    let e = last_error();
    quiet(|| if !plain && out != UNSET { format!("BAD output argument was changed by a failing call; {}", e) } else { e })
}
struct CArr { _own: Vec<CString>, ptrs: Vec<*const c_char>, arr: Option<CStringArray> }
fn c_arr(v: &Names) -> CArr {
    let own: Vec<CString> = v.iter().flatten().map(|s| CString::new(s.replace('\0', "")).unwrap()).collect();
    let mut c = CArr { ptrs: own.iter().map(|s| s.as_ptr()).collect(), _own: own, arr: None };
    if v.is_some() { c.arr = Some(CStringArray { data: c.ptrs.as_ptr(), size: c.ptrs.len() as c_int }); }
    c
}
fn cp(c: &CArr) -> *const CStringArray { c.arr.as_ref().map(|a| a as *const _).unwrap_or(std::ptr::null()) }

fn ffi_call(w: &mut World, h: usize, call: &Op, json: bool, plain: bool, hold: bool) -> String {
    let client = match quiet(|| w.handles.get(&h).cloned()) { Some(p) => p as *const CSnipsNluEngine, None => return "NOHANDLE".into() };
    let mut out = UNSET;
    let o = &mut out as *mut usize;
    let c = |s: &str| CString::new(s.replace('\0', "")).unwrap();
    let (r, kind) = match call {
        Op::Parse { text, wl, bl, ia, sa, .. } => {
            let (t, a, b) = quiet(|| (c(text), c_arr(wl), c_arr(bl)));
            let simple = plain && *ia == 0 && *sa == 0;
            let r = tracked(|| match (json, simple) {
                (false, true) => snips_nlu_engine_run_parse(client, t.as_ptr(), cp(&a), cp(&b), o as *mut _),
                (true, true) => snips_nlu_engine_run_parse_into_json(client, t.as_ptr(), cp(&a), cp(&b), o as *mut _),
                (false, false) => snips_nlu_engine_run_parse_with_alternatives(client, t.as_ptr(), cp(&a), cp(&b), *ia as _, *sa as _, o as *mut _),
                (true, false) => snips_nlu_engine_run_parse_with_alternatives_into_json(client, t.as_ptr(), cp(&a), cp(&b), *ia as _, *sa as _, o as *mut _),
            });
            (r, Kind::Result)
        }
        Op::Intents { text, .. } => { let t = quiet(|| c(text)); (tracked(|| if json { snips_nlu_engine_run_get_intents_into_json(client, t.as_ptr(), o as *mut _) } else { snips_nlu_engine_run_get_intents(client, t.as_ptr(), o as *mut _) }), Kind::Intents) }
        Op::Slots { text, intent, sa, .. } => {
            let (t, i) = quiet(|| (c(text), c(intent)));
            let simple = plain && *sa == 0;
            let r = tracked(|| match (json, simple) {
                (false, true) => snips_nlu_engine_run_get_slots(client, t.as_ptr(), i.as_ptr(), o as *mut _),
                (true, true) => snips_nlu_engine_run_get_slots_into_json(client, t.as_ptr(), i.as_ptr(), o as *mut _),
                (false, false) => snips_nlu_engine_run_get_slots_with_alternatives(client, t.as_ptr(), i.as_ptr(), *sa as _, o as *mut _),
                (true, false) => snips_nlu_engine_run_get_slots_with_alternatives_into_json(client, t.as_ptr(), i.as_ptr(), *sa as _, o as *mut _),
            });
            (r, Kind::Slots)
        }
        _ => return "UNSUPPORTED".into(),
    };
    if r == SNIPS_RESULT::SNIPS_RESULT_OK { finish(w, if json { Kind::Str } else { kind }, out, hold) } else { ffi_done(r, out, false) }
}
fn ffi_create(w: &mut World, h: usize, zip: &Option<ZipSpec>, dir: &str) -> String {
    let mut out = UNSET;
    let o = &mut out as *mut usize;
    let r = match zip {
        Some(z) => { let b = quiet(|| crate::zipw::build(z, &w.zip_files(z))); tracked(|| snips_nlu_engine_create_from_zip(b.as_ptr(), b.len() as _, o as *mut _)) }
        None => { let p = quiet(|| CString::new(format!("{}/{}", w.root, dir)).unwrap()); tracked(|| snips_nlu_engine_create_from_dir(p.as_ptr(), o as *mut _)) }
    };
    if r == SNIPS_RESULT::SNIPS_RESULT_OK {
        if out == UNSET { return "OK but nothing was stored".into(); }
        return quiet(|| { w.handles.insert(h, out); "OK".into() });
    }
    ffi_done(r, out, false)
}
fn ffi_bad(w: &mut World, kind: u32, h: usize, text: &str) -> String {
    let client = quiet(|| w.handles.get(&h).cloned().unwrap_or(0)) as *const CSnipsNluEngine;
    let null: *const CSnipsNluEngine = std::ptr::null();
    let mut out = UNSET;
    let o = &mut out as *mut usize;
    let t = quiet(|| CString::new(text.replace('\0', "")).unwrap());
    let bad: [u8; 4] = [0x66, 0xff, 0xfe, 0];
    let badp = bad.as_ptr() as *const c_char;
    let np: *const c_char = std::ptr::null();
    let na: *const CStringArray = std::ptr::null();
    let ptrs = [badp];
    let ba = CStringArray { data: ptrs.as_ptr(), size: 1 };
    let r = tracked(|| match kind % 12 {
        0 => snips_nlu_engine_run_parse(null, t.as_ptr(), na, na, o as *mut _),
        1 => snips_nlu_engine_run_parse(client, badp, na, na, o as *mut _),
        2 => snips_nlu_engine_run_parse_into_json(client, np, na, na, o as *mut _),
        3 => snips_nlu_engine_run_get_slots(client, t.as_ptr(), badp, o as *mut _),
        4 => snips_nlu_engine_run_get_intents(null, t.as_ptr(), o as *mut _),
        5 => snips_nlu_engine_run_get_intents_into_json(client, badp, o as *mut _),
        6 => snips_nlu_engine_run_parse(client, t.as_ptr(), &ba, na, o as *mut _),
        7 => snips_nlu_engine_run_parse_into_json(client, t.as_ptr(), na, &ba, o as *mut _),
        8 => snips_nlu_engine_run_get_slots_into_json(client, t.as_ptr(), np, o as *mut _),
        9 => snips_nlu_engine_create_from_dir(badp, o as *mut _),
        10 => snips_nlu_engine_create_from_zip(bad.as_ptr(), 3, o as *mut _),
        _ => snips_nlu_engine_destroy_result(std::ptr::null_mut()),
    });
    if r == SNIPS_RESULT::SNIPS_RESULT_OK { return "OK".into(); }
    ffi_done(r, out, false)
}
#[allow(dead_code)] fn _unused(_: PathBuf, _: NluInjectionErrorKind) {}
