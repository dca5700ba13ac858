//! C38 (intent scores), C39 (what the sequence model is told) and C40 (where entities are): answers of simulated
//! histories against an independent reading of the model's files.
use crate::answers::{clients, odd, spoken, world, show, cut};
use crate::compose::{ask, load_shared, name};
use crate::model::{self, ModelSpec};
use crate::ops::{chain, Op};
use crate::props::*;
use crate::rng::Rng;
use crate::runner::{Ctx, Raw, Spec, World};
use serde_json::{json, Value};
use snips_nlu_ontology::BuiltinEntityKind;
use snips_nlu_utils::language::Language;
use snips_nlu_utils::string::{get_shape, normalize};
use snips_nlu_utils::token::{tokenize, tokenize_light};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs::read_to_string;
use std::path::{Path, PathBuf};

type Res<T> = Result<T, String>;
fn err<E: std::fmt::Display>(e: E) -> String { e.to_string() }
fn read(p: &Path) -> Res<Value> { serde_json::from_str(&read_to_string(p).map_err(err)?).map_err(err) }
fn strings(v: &Value) -> Vec<String> { v.as_array().cloned().unwrap_or_default().iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect() }

/// The resource files of a model, read here.
struct Files { dir: PathBuf, meta: Value }
impl Files {
    fn new(w: &World) -> Res<Files> { let dir = Path::new(&w.root).join("model/resources").join(w.spec.model.lang()); Ok(Files { meta: read(&dir.join("metadata.json"))?, dir }) }
    fn lines(&self, rel: &str) -> Res<Vec<String>> { Ok(read_to_string(self.dir.join(rel)).map_err(err)?.lines().map(|l| l.to_string()).collect()) }
    fn stems(&self) -> Res<HashMap<String, String>> {
        let mut m = HashMap::new();
        let n = match self.meta["stems"].as_str() { Some(n) => n, None => return Err("no stems".into()) };
        for l in self.lines(&format!("stemming/{}.txt", n))? { let c: Vec<&str> = l.split(',').collect(); for x in &c[1..] { m.insert(x.to_string(), c[0].to_string()); } }
        Ok(m)
    }
    fn words(&self, name: &str) -> Res<BTreeSet<String>> { Ok(self.lines(&format!("gazetteers/{}.txt", name))?.into_iter().collect()) }
    fn clusters(&self, name: &str) -> Res<HashMap<String, String>> { Ok(self.lines(&format!("word_clusters/{}.txt", name))?.iter().filter_map(|l| { let c: Vec<&str> = l.split('\t').collect(); if c.len() < 2 { None } else { Some((c[0].to_string(), c[1].to_string())) } }).collect()) }
    fn stop(&self) -> Res<BTreeSet<String>> { match self.meta["stop_words"].as_str() { Some(n) => Ok(self.lines(&format!("{}.txt", n))?.into_iter().collect()), None => Ok(BTreeSet::new()) } }
}
fn stem(stems: &Option<HashMap<String, String>>, word: &str) -> String { let n = normalize(word); stems.as_ref().and_then(|s| s.get(&n).cloned()).unwrap_or(n) }

// ---- reference operations ----
/// The scores the trained classifier gives to a sentence: [intent or null, score] in the order of its classes.
pub fn classify(w: &mut World, text: &str) -> String { match classify_(w, text) { Ok(v) => format!("OK {}", v), Err(e) => format!("NOREF {}", e) } }
fn classify_(w: &mut World, text: &str) -> Res<Value> {
    if w.shared.is_none() { load_shared(w)?; }
    let parsers = w.shared.clone().unwrap();
    let dir = Path::new(&w.root).join("model/probabilistic_intent_parser/intent_classifier");
    let m = read(&dir.join("intent_classifier.json"))?;
    let classes = m["intent_list"].as_array().cloned().unwrap_or_default();
    let out = |s: Vec<f64>| json!(classes.iter().zip(s).map(|(c, s)| json!([c, s])).collect::<Vec<_>>());
    if classes.is_empty() { return Ok(json!([[null, 1.0]])); }
    if classes.len() == 1 { return Ok(out(vec![1.])); }
    if text.is_empty() || m["featurizer"].is_null() || m["coeffs"].is_null() { return Ok(out(classes.iter().map(|c| if c.is_null() { 1. } else { 0. }).collect())); }
    let dir = dir.join(m["featurizer"].as_str().unwrap_or(""));
    let f = read(&dir.join("featurizer.json"))?;
    let files = Files::new(w)?;
    let kinds = |v: &Value| strings(v).iter().filter_map(|x| BuiltinEntityKind::from_identifier(x).ok()).collect::<Vec<_>>();
    let joined = |x: &str| tokenize_light(x, Language::EN).join("");
    // words, entities and clusters
    let t = read(&dir.join(f["tfidf_vectorizer"].as_str().unwrap_or("")).join("vectorizer.json"))?;
    let raw = tokenize_light(text, Language::EN);
    let stems = if t["config"]["use_stemming"] == json!(true) { Some(files.stems()?) } else { None };
    let mut terms: Vec<String> = raw.iter().map(|x| stem(&stems, x)).collect();
    let said = terms.join(" ");
    for e in parsers.builtin_entity_parser.extract_entities(text, Some(&kinds(&t["builtin_entity_scope"])), true, 0).map_err(|e| chain(&e))? { terms.push(format!("builtinentityfeature{}", joined(&e.entity_kind.identifier().to_lowercase()))); }
    for e in parsers.custom_entity_parser.extract_entities(&said, None, 0).map_err(|e| chain(&e))? { terms.push(format!("entityfeature{}", joined(&e.entity_identifier.to_lowercase()))); }
    if let Some(c) = t["config"]["word_clusters_name"].as_str() {
        let c = files.clusters(c)?;
        for i in 0..raw.len() { for j in i + 1..=raw.len() { if let Some(x) = c.get(&raw[i..j].join(" ").to_lowercase()) { terms.push(x.clone()); } } }
    }
    let vocab: HashMap<String, usize> = serde_json::from_value(t["vectorizer"]["vocab"].clone()).map_err(err)?;
    let idf: Vec<f64> = serde_json::from_value(t["vectorizer"]["idf_diag"].clone()).map_err(err)?;
    let mut x = vec![0f64; vocab.values().max().map(|m| m + 1).unwrap_or(0)];
    for w in &terms { if let Some(i) = vocab.get(w) { x[*i] += idf[*i]; } }
    let n = x.iter().map(|v| v * v).sum::<f64>().sqrt();
    if n > 0. { for v in x.iter_mut() { *v /= n; } }
    // pairs of words
    if let Some(c) = f["cooccurrence_vectorizer"].as_str() {
        let c = read(&dir.join(c).join("vectorizer.json"))?;
        let mut ents: Vec<(String, usize, usize)> = parsers.builtin_entity_parser.extract_entities(text, Some(&kinds(&c["builtin_entity_scope"])), true, 0).map_err(|e| chain(&e))?.into_iter().map(|e| (e.entity_kind.identifier().to_string(), e.range.start, e.range.end)).collect();
        ents.extend(parsers.custom_entity_parser.extract_entities(text, None, 0).map_err(|e| chain(&e))?.into_iter().map(|e| (e.entity_identifier, e.range.start, e.range.end)));
        let mut kept: Vec<(String, usize, usize)> = vec![];
        ents.sort_by_key(|e| std::cmp::Reverse(e.2 - e.1));
        for e in ents { match kept.iter().find(|k| k.1 < e.2 && e.1 < k.2) { Some(k) if k.2 - k.1 == e.2 - e.1 && k.0 != e.0 => return Err("two entities of one length overlap".into()), Some(_) => {} None => kept.push(e) } }
        kept.sort_by_key(|e| e.1);
        let chars: Vec<char> = text.chars().collect();
        let (mut s, mut at) = (String::new(), 0);
        for e in &kept { s.extend(&chars[at..e.1]); s.push_str(&joined(&e.0).to_uppercase()); at = e.2; }
        s.extend(&chars[at..]);
        let stop = if c["config"]["filter_stop_words"] == json!(true) { files.stop()? } else { BTreeSet::new() };
        let words: Vec<String> = tokenize_light(&s, Language::EN).into_iter().filter(|w| !stop.contains(w) && Some(w.as_str()) != c["config"]["unknown_words_replacement_string"].as_str()).collect();
        let reach = c["config"]["window_size"].as_u64().map(|x| x as usize).unwrap_or(usize::MAX);
        let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
        for i in 0..words.len() { for j in i + 1..words.len() { if j - i > reach { break; } let (a, b) = (words[i].clone(), words[j].clone()); if c["config"]["keep_order"] != json!(true) && b < a { seen.insert((b, a)); } else { seen.insert((a, b)); } } }
        let known: BTreeMap<String, (String, String)> = serde_json::from_value(c["word_pairs"].clone()).map_err(err)?;
        let mut y = vec![0f64; known.len()];
        for (i, p) in &known { if seen.contains(p) { y[i.parse::<usize>().map_err(err)?] = 1.; } }
        x.extend(y);
    }
    let coeffs: Vec<Vec<f64>> = serde_json::from_value(m["coeffs"].clone()).map_err(err)?;
    let bias: Vec<f64> = serde_json::from_value(m["intercept"].clone()).map_err(err)?;
    let p: Vec<f64> = coeffs.iter().zip(&bias).map(|(r, b)| { let z: f64 = b + r.iter().zip(&x).map(|(a, b)| a * b).sum::<f64>(); 1. / (1. + (-z).exp()) }).collect();
    Ok(out(if p.len() == 1 { vec![1. - p[0], p[0]] } else { p }))
}
type Row = Vec<(String, String)>;
/// What the sequence model of an intent is to be told about a sentence, what it answers and how likely it finds some tags.
pub fn tell(w: &mut World, intent: &str, text: &str, tags: &[String]) -> String { match tell_(w, intent, text, tags) { Ok(v) => format!("OK {}", v), Err(e) => format!("NOREF {}", e) } }
fn tell_(w: &mut World, intent: &str, text: &str, tags: &[String]) -> Res<Value> {
    if w.shared.is_none() { load_shared(w)?; }
    let parsers = w.shared.clone().unwrap();
    let root = Path::new(&w.root).join("model/probabilistic_intent_parser");
    let list = read(&root.join("intent_parser.json"))?;
    let dir = list["slot_fillers"].as_array().cloned().unwrap_or_default().iter().find(|x| x["intent"] == json!(intent)).and_then(|x| x["slot_filler_name"].as_str().map(|s| root.join(s))).ok_or("no such intent")?;
    let m = read(&dir.join("slot_filler.json"))?;
    let tok = tokenize(text, Language::EN);
    let n = tok.len();
    let mut rows: Vec<Row> = vec![vec![]; n];
    let mut unsure: BTreeSet<String> = BTreeSet::new();
    let crf = m["crf_model_file"].as_str();
    let files = Files::new(w)?;
    if crf.is_some() && n > 0 {
        for f in m["config"]["feature_factory_configs"].as_array().cloned().unwrap_or_default() {
            let a = &f["args"];
            let size = |k: &str| a[k].as_u64().unwrap_or(0) as usize;
            let kind = f["factory_name"].as_str().unwrap_or("");
            let stems = if a["use_stemming"] == json!(true) { Some(files.stems()?) } else { None };
            // (name, value per token)
            let mut cols: Vec<(String, Vec<Option<String>>)> = vec![];
            let each = |g: &dyn Fn(usize) -> Option<String>| (0..n).map(|i| g(i)).collect::<Vec<_>>();
            let one = |b: bool| if b { Some("1".to_string()) } else { None };
            match kind {
                "is_digit" => cols.push((kind.into(), each(&|i| one(tok[i].value.chars().all(|c| c.is_ascii_digit()))))),
                "length" => cols.push((kind.into(), each(&|i| Some(tok[i].value.chars().count().to_string())))),
                "is_first" => cols.push((kind.into(), each(&|i| one(i == 0)))),
                "is_last" => cols.push((kind.into(), each(&|i| one(i == n - 1)))),
                "ngram" => {
                    let k = size("n");
                    let common = match a["common_words_gazetteer_name"].as_str() { Some(g) => Some(files.words(g)?), None => None };
                    cols.push((format!("ngram_{}", k), each(&|i| if i + k > n { None } else { Some(tok[i..i + k].iter().map(|t| { let x = stem(&stems, &t.value); if common.as_ref().map(|c| c.contains(&x)).unwrap_or(true) { x } else { "rare_word".into() } }).collect::<Vec<_>>().join(" ")) })));
                }
                "shape_ngram" => { let k = size("n"); cols.push((format!("shape_ngram_{}", k), each(&|i| if i + k > n { None } else { Some(tok[i..i + k].iter().map(|t| get_shape(&t.value)).collect::<Vec<_>>().join(" ")) }))); }
                "prefix" => { let k = size("prefix_size"); cols.push((format!("prefix_{}", k), each(&|i| { let c: Vec<char> = normalize(&tok[i].value).chars().collect(); if c.len() < k { None } else { Some(c[..k].iter().collect()) } }))); }
                "suffix" => { let k = size("suffix_size"); cols.push((format!("suffix_{}", k), each(&|i| { let c: Vec<char> = normalize(&tok[i].value).chars().collect(); if c.len() < k { None } else { Some(c[c.len() - k..].iter().collect()) } }))); }
                "word_cluster" => { let c = a["cluster_name"].as_str().unwrap_or(""); let l = files.clusters(c)?; cols.push((format!("word_cluster_{}", c), each(&|i| l.get(&tok[i].value.to_lowercase()).cloned()))); }
                "entity_match" | "builtin_entity_match" => {
                    let code = size("tagging_scheme_code") as u8;
                    let own = kind == "entity_match";
                    // the words with their places in the text the parser is given
                    let (mut at, mut said) = (0, String::new());
                    let mut pos: Vec<(usize, usize)> = vec![];
                    for t in &tok {
                        let x = if own { stem(&stems, &t.value) } else { t.value.clone() };
                        let from = if own { if pos.is_empty() { 0 } else { at + 1 } } else { t.char_range.start };
                        for _ in at..from { said.push(' '); }
                        at = from + x.chars().count();
                        said.push_str(&x);
                        pos.push((from, at));
                    }
                    for e in strings(&a[if own { "entities" } else { "entity_labels" }]) {
                        let hits: Vec<(usize, usize)> = if own { parsers.custom_entity_parser.extract_entities(&said, Some(&[e.clone()]), 0).map_err(|e| chain(&e))?.into_iter().map(|x| (x.range.start, x.range.end)).collect() }
                            else { parsers.builtin_entity_parser.extract_entities(&said, Some(&[BuiltinEntityKind::from_identifier(&e).map_err(err)?]), true, 0).map_err(|e| chain(&e))?.into_iter().map(|x| (x.range.start, x.range.end)).collect() };
                        let mut col: Vec<Option<String>> = vec![None; n];
                        let key = format!("{}_{}", kind, e);
                        for h in hits {
                            let l: Vec<usize> = (0..n).filter(|i| pos[*i].0 < h.1 && h.0 < pos[*i].1).collect();
                            for (k, p) in l.iter().zip(crate::tags::encode(code, l.len())) { if col[*k].is_some() { unsure.insert(key.clone()); } col[*k] = Some(p.to_string()); }
                        }
                        cols.push((key, col));
                    }
                }
                _ => return Err(format!("feature {}", kind)),
            }
            for (key, col) in cols {
                for o in f["offsets"].as_array().cloned().unwrap_or_default().iter().filter_map(|o| o.as_i64()) {
                    let k = match o { 0 => key.clone(), o if o > 0 => format!("{}[+{}]", key, o), o => format!("{}[{}]", key, o) };
                    for i in 0..n { let at = i as i64 + o; if at >= 0 && (at as usize) < n { if let Some(v) = &col[at as usize] { rows[i].push((k.clone(), v.clone())); } } }
                }
            }
        }
    }
    let (mut said, mut prob) = (Value::Null, Value::Null);
    let mut t: Vec<String> = tags.to_vec();
    t.resize(n, "O".into());
    if let Some(c) = crf {
        if unsure.is_empty() && n > 0 {
            let tagger = crfsuite::Tagger::create_from_file(dir.join(c)).map_err(|e| format!("{:?}", e))?;
            let x: Vec<Vec<crfsuite::Attribute>> = rows.iter().map(|r| r.iter().map(|(k, v)| crfsuite::Attribute::new(format!("{}={}", k, v), 1.)).collect()).collect();
            said = json!(tagger.tag(&x).map_err(|e| format!("{:?}", e))?.iter().map(|l| model::unb64(l)).collect::<Vec<_>>());
            let known: BTreeSet<String> = tagger.labels().map_err(|e| format!("{:?}", e))?.iter().map(|l| model::unb64(l)).collect();
            let y: Vec<String> = t.iter().map(|x| model::b64(if known.contains(x) { x } else { "O" })).collect();
            tagger.set(&x).map_err(|e| format!("{:?}", e))?;
            prob = json!(tagger.probability(&y).map_err(|e| format!("{:?}", e))?);
        }
    } else { prob = json!(if t.iter().all(|x| x == "O") { 1. } else { 0. }); said = json!(vec!["O"; n]); }
    Ok(json!({ "rows": rows, "unsure": unsure, "said": said, "prob": prob }))
}

// ---- C38 ----
pub fn c38_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = world("C38", r, seed);
    s.model.parsers = vec![2];
    let mut tx: Vec<String> = vec![];
    for _ in 0..3 + r.below(4) {
        let mut t = if r.chance(1, 2) { model::sentence(r, &s.model) } else { spoken(r, &s) };
        if r.chance(1, 5) { let more = spoken(r, &s); t = format!("{} {}", t, more); }
        for _ in 0..if s.model.cooc { r.below(3) } else { 0 } { let mut x: Vec<&str> = t.split(' ').collect(); let i = r.below(x.len() + 1); x.insert(i, *r.pick(&["rareword", "the", "The", "please", "RAREWORD"])); t = x.join(" "); }
        if r.chance(1, 5) { t = odd(r, t); }
        if r.chance(1, 40) { t = String::new(); }
        tx.push(t);
    }
    clients(r, &mut s, &tx, scored);
    s
}
fn scored(r: &mut Rng, m: &ModelSpec, tx: &[String]) -> Op {
    let text = r.pick(tx).clone();
    match r.below(6) {
        0 | 1 | 2 => Op::Intents { text, e: 0 },
        3 => { let l: Vec<String> = m.intent_defs().iter().filter(|_| r.chance(1, 2)).map(|d| d.name.to_string()).collect(); if r.chance(1, 2) { Op::Parse { text, wl: None, bl: Some(l), ia: 0, sa: 0, e: 0 } } else { Op::Parse { text, wl: Some(l), bl: None, ia: 0, sa: 0, e: 0 } } }
        4 => Op::Slots { text, intent: r.pick(&m.intent_defs()).name.to_string(), sa: 0, e: 0 },
        _ => Op::Parse { text, wl: None, bl: None, ia: r.below(4), sa: 0, e: 0 },
    }
}
pub fn c38_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let mut cache: BTreeMap<String, Option<Vec<(Option<String>, f64)>>> = BTreeMap::new();
    let names: BTreeSet<&str> = spec.model.intent_defs().iter().map(|d| d.name).collect();
    for (i, t, k, op, rec) in each(spec, raw) {
        if !is_call(op) || rec.f > 0 { continue; }
        let text = match op { Op::Parse { text, .. } | Op::Intents { text, .. } => text, _ => continue };
        let who = format!("phase {} client {} operation {}: {}", i, t, k, show(op));
        let want = cache.entry(text.clone()).or_insert_with(|| Some(parse_ok(&ask(ctx, spec, vec![Op::Classify { text: text.clone() }])[0])?.as_array()?.iter().map(|x| (x[0].as_str().map(|s| s.to_string()), x[1].as_f64().unwrap_or(-1.))).collect())).clone();
        let want = match want { Some(w) => w, None => continue };
        let a = match parse_ok(&rec.r) { Some(a) => a, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
        let near = |g: &Value, s: f64| (g["confidenceScore"].as_f64().unwrap_or(-9.) - s).abs() < 1e-4;
        match op {
            Op::Intents { .. } => {
                let got = a.as_array().cloned().unwrap_or_default();
                let score = |n: &Option<String>| want.iter().find(|w| w.0 == *n).map(|w| w.1);
                for g in &got { let s = score(&name(g)).unwrap_or(0.); if !near(g, s) { return v("score", format!("{}: {} has the score {} and should have {}: {}", who, g["intentName"], g["confidenceScore"], s, cut(&rec.r))); } }
                for (n, s) in &want { if *s > 1e-4 && !got.iter().any(|g| name(g) == *n) { return v("score", format!("{}: {:?} is missing and has the score {}: {}", who, n, s, cut(&rec.r))); } }
            }
            Op::Parse { wl, bl, .. } => {
                if wl.iter().chain(bl).flatten().any(|x| !names.contains(x.as_str())) { continue; }
                let mut may: Vec<(Option<String>, f64)> = want.iter().filter(|x| match &x.0 { None => true, Some(n) => wl.as_ref().map(|w| w.contains(n)).unwrap_or(true) && !bl.as_ref().map(|b| b.contains(n)).unwrap_or(false) }).cloned().collect();
                may.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
                let got = name(&a["intent"]);
                if may.is_empty() { if got.is_some() { return v("choice", format!("{}: no intent is allowed: {}", who, cut(&rec.r))); } continue; }
                if may.len() > 1 && may[0].1 - may[1].1 < 1e-3 { if !may.iter().any(|m| m.0 == got && may[0].1 - m.1 < 2e-3) { return v("choice", format!("{}: {:?} is chosen, the scores are {:?}", who, got, may)); } continue; }
                if got != may[0].0 { return v("choice", format!("{}: {:?} is chosen, the scores are {:?}", who, got, may)); }
                // with no intent, an engine whose parsers found none reports that with certainty or as scored
                if got.is_some() && !near(&a["intent"], may[0].1) { return v("choice", format!("{}: the score is {} and should be {}", who, a["intent"]["confidenceScore"], may[0].1)); }
                let one = match &got { None => json!([]), Some(n) => match parse_ok(&ask(ctx, spec, vec![Op::Slots { text: text.clone(), intent: n.clone(), sa: 0, e: 0 }])[0]) { Some(x) => x, None => continue } };
                let flat = |x: &Value| x.as_array().cloned().unwrap_or_default().iter().map(|s| json!([s["slotName"], s["rawValue"], s["range"], s["entity"]])).collect::<Vec<_>>();
                if flat(&one) != flat(&a["slots"]) { return v("choice", format!("{}: the slots are {} but asked for the slots of {:?} the engine answers {}", who, a["slots"], got, one)); }
            }
            _ => {}
        }
    }
    None
}

// ---- C39 ----
pub fn c39_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C39", r, seed);
    s.model.parsers = vec![2];
    s.cap = cap(r);
    s.model.tagger = if r.chance(1, 3) { (r.next() >> 12).max(2) & !1 } else { 0 };
    s.model.feats = if r.chance(1, 2) { r.next() >> 12 } else { 0 };
    if r.chance(1, 3) { let ents = injectable(&s.model); let o = inject(r, &s.model, &ents); s.setup.push(o); }
    s.setup.push(Op::LoadFillers);
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) {
        let mut t = if r.chance(1, 2) { spoken(r, &s) } else { model::sentence(r, &s.model) };
        if r.chance(1, 5) { let more = spoken(r, &s); t = format!("{} {}", t, more); }
        if r.chance(1, 3) { t = odd(r, t); }
        tx.push(t);
    }
    let with = s.model.intent_defs();
    let m = s.model.clone();
    let one = |r: &mut Rng| {
        let text = r.pick(&tx).clone();
        let d = *r.pick(&with);
        let intent = d.name.to_string();
        match r.below(6) {
            0 => Op::Fill { intent, text },
            1 | 2 => { let mut l = model::crf_labels(&m, d); l.push("B-nothing".into()); l.push("I-nothing".into()); let n = tokenize(&text, Language::EN).len(); let tags = (0..n).map(|_| if r.chance(1, 2) { "O".to_string() } else { r.pick(&l).clone() }).collect(); Op::Prob { intent, text, tags } }
            _ => Op::Feats { intent, text },
        }
    };
    let n = if r.chance(1, 2) { 1 } else { 2 + r.below(3) };
    for _ in 0..n { let k = 2 + r.below(5); let t: Vec<Op> = (0..k).map(|_| one(r)).collect(); s.threads.push(t); }
    s.post = (0..2).map(|_| one(r)).collect();
    s
}
pub fn c39_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let mut cache: BTreeMap<String, Option<Value>> = BTreeMap::new();
    for (i, t, k, op, rec) in each(spec, raw) {
        if rec.f > 0 { continue; }
        let (intent, text, tags) = match op { Op::Feats { intent, text } | Op::Fill { intent, text } => (intent, text, vec![]), Op::Prob { intent, text, tags } => (intent, text, tags.clone()), _ => continue };
        let who = format!("phase {} client {} operation {}: {}", i, t, k, show(op));
        let o = Op::Tell { intent: intent.clone(), text: text.clone(), tags: tags.clone() };
        let want = match cache.entry(serde_json::to_string(&o).unwrap()).or_insert_with(|| parse_ok(&ask(ctx, spec, vec![o])[0])) { Some(w) => w.clone(), None => continue };
        let unsure = strings(&want["unsure"]);
        match op {
            Op::Feats { .. } => {
                let a = match parse_ok(&rec.r) { Some(a) => a, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
                let rows = |x: &Value| -> Vec<Row> { let mut l: Vec<Row> = serde_json::from_value(x.clone()).unwrap_or_default(); for r in l.iter_mut() { r.retain(|f| !unsure.iter().any(|u| f.0 == *u || f.0.starts_with(&format!("{}[", u)))); r.sort(); } l };
                let (g, e) = (rows(&a), rows(&want["rows"]));
                if g.len() != e.len() { return v("told", format!("{}: {} rows for {} tokens", who, g.len(), e.len())); }
                for (n, (x, y)) in g.iter().zip(&e).enumerate() { if x != y { return v("told", format!("{}: token {} is described by {:?}, the model asks for {:?}", who, n, x.iter().filter(|f| !y.contains(f)).collect::<Vec<_>>(), y.iter().filter(|f| !x.contains(f)).collect::<Vec<_>>())); } }
            }
            Op::Prob { .. } => {
                let p = match want["prob"].as_f64() { Some(p) => p, None => continue };
                let got: f64 = match rec.r.strip_prefix("OK ").and_then(|x| x.parse().ok()) { Some(x) => x, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
                if (got - p).abs() > 1e-9 + 1e-5 * p.abs() { return v("likelihood", format!("{}: {} and should be {}", who, got, p)); }
            }
            Op::Fill { .. } => {
                let tags = strings(&want["said"]);
                let tok = tokenize(text, Language::EN);
                if tags.len() != tok.len() { continue; }
                let spans = match decode(spec.model.tagging, &tags) { Some(s) => s, None => continue };
                let chars: Vec<char> = text.chars().collect();
                let e: Vec<Value> = spans.iter().map(|(n, x, y)| { let (f, t) = (tok[*x].char_range.start, tok[*y - 1].char_range.end); json!([n, model::entity_of(intent, n), chars[f..t].iter().collect::<String>(), f, t]) }).collect();
                let a = match parse_ok(&rec.r) { Some(a) => a, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
                let g: Vec<Value> = a.as_array().cloned().unwrap_or_default().iter().map(|x| json!([x["slot"], x["entity"], x["value"], x["start"], x["end"]])).collect();
                if g != e { return v("answer", format!("{}: slots {} but the sequence model, told what it asks for, answers {:?}", who, cut(&rec.r), tags)); }
            }
            _ => {}
        }
    }
    None
}
/// The slots of a sequence of tags that is the encoding of some slots (none adjacent in the scheme without beginnings).
fn decode(scheme: u8, tags: &[String]) -> Option<Vec<(String, usize, usize)>> {
    let mut out: Vec<(String, usize, usize)> = vec![];
    let mut i = 0;
    while i < tags.len() {
        if tags[i] == "O" { i += 1; continue; }
        let n = tags[i].get(2..)?.to_string();
        let mut j = i + 1;
        let more = |t: &String| t.get(2..) == Some(&n) && t != "O" && (t.starts_with("I-") || scheme == 2 && t.starts_with("L-"));
        if !(scheme == 2 && tags[i].starts_with("U-")) { while j < tags.len() && more(&tags[j]) { j += 1; if tags[j - 1].starts_with("L-") { break; } } }
        if (i..j).zip(crate::tags::encode(scheme, j - i)).any(|(k, p)| tags[k] != format!("{}{}", p, n)) { return None; }
        if scheme == 0 && i > 0 && tags[i - 1] != "O" { return None; }
        out.push((n, i, j));
        i = j;
    }
    Some(out)
}

// ---- C40 ----
/// The shared entity parsers asked directly.
pub fn spot(w: &World, text: &str, kinds: &Option<Vec<String>>, builtin: bool, cached: bool, sa: usize) -> Result<Value, failure::Error> {
    let p = match w.shared.clone() { Some(p) => p, None => return Ok(Value::Null) };
    Ok(json!(if builtin {
        let l = crate::rt::quiet(|| kinds.as_ref().map(|l| l.iter().filter_map(|x| BuiltinEntityKind::from_identifier(x).ok()).collect::<Vec<_>>()));
        p.builtin_entity_parser.extract_entities(text, l.as_ref().map(|l| &l[..]), cached, sa)?.into_iter().map(|e| json!([e.entity_kind.identifier(), e.range.start, e.range.end, e.value, e.entity, e.alternatives])).collect::<Vec<_>>()
    } else {
        p.custom_entity_parser.extract_entities(text, kinds.as_ref().map(|l| &l[..]), sa)?.into_iter().map(|e| json!([e.entity_identifier, e.range.start, e.range.end, e.value, e.resolved_value, e.alternative_resolved_values])).collect::<Vec<_>>()
    }))
}
/// What the parsers beneath recognise, with its place in the sentence as it was said (reference).
pub fn seek(w: &World, text: &str, kinds: &Option<Vec<String>>, builtin: bool, sa: usize) -> String { match seek_(w, text, kinds, builtin, sa) { Ok(v) => format!("OK {}", v), Err(e) => format!("NOREF {}", e) } }
fn seek_(w: &World, text: &str, kinds: &Option<Vec<String>>, builtin: bool, sa: usize) -> Res<Value> {
    let root = Path::new(&w.root).join("model");
    let low = text.to_lowercase();
    // the character of the sentence each lowercase character comes from
    let from: Vec<usize> = text.chars().enumerate().flat_map(|(i, c)| std::iter::repeat(i).take(c.to_lowercase().count())).collect();
    if from.len() != low.chars().count() { return Err("letters change in context".into()); }
    let said = |a: usize, b: usize| -> Res<(usize, usize)> { if a >= b || b > from.len() { return Err("empty match".into()); } Ok((from[a], from[b - 1] + 1)) };
    let mut out: Vec<Value> = vec![];
    if builtin {
        let l = kinds.as_ref().map(|l| l.iter().filter_map(|x| BuiltinEntityKind::from_identifier(x).ok()).collect::<Vec<_>>());
        let p = snips_nlu_parsers::BuiltinEntityParser::from_path(root.join("builtin_entity_parser")).map_err(|e| chain(&e))?;
        for e in p.extract_entities(&low, l.as_ref().map(|l| &l[..]), sa).map_err(|e| chain(&e))? { let (a, b) = said(e.range.start, e.range.end)?; out.push(json!([e.entity_kind.identifier(), a, b, e.value, e.entity, e.alternatives])); }
    } else {
        let meta = read(&root.join("custom_entity_parser/metadata.json"))?;
        let p: snips_nlu_parsers::GazetteerParser<String> = snips_nlu_parsers::GazetteerParser::from_path(root.join("custom_entity_parser").join(meta["parser_directory"].as_str().unwrap_or(""))).map_err(|e| chain(&e))?;
        let tok = tokenize(&low, Language::EN);
        let mut spread: Vec<usize> = vec![];
        for (i, t) in tok.iter().enumerate() { if i > 0 { spread.push(usize::MAX); } spread.extend(t.char_range.clone()); }
        let words = tok.iter().map(|t| t.value.clone()).collect::<Vec<_>>().join(" ");
        for e in p.extract_entities(&words, kinds.as_ref().map(|l| &l[..]), sa).map_err(|e| chain(&e))? {
            let (x, y) = (*spread.get(e.range.start).ok_or("range")?, *spread.get(e.range.end.wrapping_sub(1)).ok_or("range")?);
            if x == usize::MAX || y == usize::MAX { return Err("a match between words".into()); }
            let (a, b) = said(x, y + 1)?;
            out.push(json!([e.entity_identifier, a, b, e.value, e.resolved_value, e.alternative_resolved_values]));
        }
    }
    Ok(json!(out))
}
pub fn c40_gen(r: &mut Rng, seed: u64) -> Spec {
    let mut s = base("C40", r, seed);
    s.cap = cap(r);
    if r.chance(1, 3) { let ents = injectable(&s.model); for _ in 0..r.geometric(2) { let o = inject(r, &s.model, &ents); s.setup.push(o); } }
    s.setup.push(Op::LoadFillers);
    let mut tx: Vec<String> = vec![];
    for _ in 0..2 + r.below(4) {
        let mut t = if r.chance(1, 2) { spoken(r, &s) } else { model::sentence(r, &s.model) };
        if r.chance(1, 4) { let more = spoken(r, &s); t = format!("{}{}{}", t, r.pick(&[" ", "?", "...", " - ", "!!"]), more); }
        for _ in 0..r.below(3) { if r.chance(1, 2) { t = odd(r, t); } }
        tx.push(t);
    }
    let custom: Vec<String> = model::custom_entities(&s.model).iter().map(|e| e.name.to_string()).collect();
    let built: Vec<String> = ["snips/number", "snips/datetime", "snips/duration", "snips/temperature", "snips/ordinal", "snips/musicArtist", "snips/city", "snips/time"].iter().map(|s| s.to_string()).collect();
    let one = |r: &mut Rng| {
        let text = r.pick(&tx).clone();
        let builtin = r.chance(1, 3);
        let all = if builtin { &built } else { &custom };
        let kinds = match r.below(4) { 0 => None, 1 => Some(vec![r.pick(all).clone()]), _ => { let mut l: Vec<String> = all.iter().filter(|_| r.chance(1, 2)).cloned().collect(); r.shuffle(&mut l); Some(l) } };
        Op::Spot { text, kinds, builtin, cached: r.chance(1, 2), sa: if r.chance(1, 2) { 0 } else { r.below(4) } }
    };
    // the same question with one thing changed: what one answer is remembered under must tell them apart
    let vary = |r: &mut Rng, o: &Op| {
        let mut o = o.clone();
        if let Op::Spot { kinds, builtin, cached, sa, text } = &mut o {
            *cached = true;
            let all = if *builtin { &built } else { &custom };
            match r.below(6) {
                0 => *sa = r.below(4),
                1 => *text = if r.chance(1, 2) { text.to_uppercase() } else { r.pick(&tx).clone() },
                2 => *kinds = if kinds.is_none() { Some(all.clone()) } else { None },
                _ => if let Some(l) = kinds { match r.below(4) { 0 => { l.pop(); } 1 => { l.reverse(); } 2 if !l.is_empty() => { let i = r.below(l.len()); l[i] = r.pick(all).clone(); } _ => l.push(r.pick(all).clone()) } l.dedup(); },
            }
        }
        o
    };
    let n = if r.chance(1, 2) { 1 } else { 2 + r.below(3) };
    for _ in 0..n { let k = 3 + r.below(6); let mut t: Vec<Op> = vec![]; for _ in 0..k { let o = match t.last() { Some(l) if r.chance(1, 2) => vary(r, &l.clone()), _ => one(r) }; t.push(o); } s.threads.push(t); }
    s.post = (0..2).map(|_| one(r)).collect();
    s
}
pub fn c40_judge(spec: &Spec, raw: &Raw, ctx: &mut Ctx) -> Option<V> {
    let mut cache: BTreeMap<String, Option<Value>> = BTreeMap::new();
    for (i, t, k, op, rec) in each(spec, raw) {
        if rec.f > 0 { continue; }
        let (text, o) = match op { Op::Spot { text, kinds, builtin, sa, .. } => (text, Op::Seek { text: text.clone(), kinds: kinds.clone(), builtin: *builtin, sa: *sa }), _ => continue };
        let who = format!("phase {} client {} operation {}: {}", i, t, k, show(op));
        let want = match cache.entry(serde_json::to_string(&o).unwrap()).or_insert_with(|| parse_ok(&ask(ctx, spec, vec![o])[0])) { Some(w) => w.clone(), None => continue };
        let a = match parse_ok(&rec.r) { Some(a) => a, None => return v("refused", format!("{} was refused: {}", who, cut(&rec.r))) };
        let sorted = |x: &Value| { let mut l: Vec<String> = x.as_array().cloned().unwrap_or_default().iter().map(|x| x.to_string()).collect(); l.sort(); l };
        let (g, e) = (sorted(&a), sorted(&want));
        if g != e { return v("entity", format!("{}: in {:?} (characters) {:?} is recognised, the parsers beneath recognise {:?}", who, text, g, e)); }
    }
    None
}
