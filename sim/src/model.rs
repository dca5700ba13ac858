//! Writes complete engine models (every on-disk format the repository reads) for a small fixed domain.
use crate::rng::Rng;
use crate::rt::{mix, mix_str};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use snips_nlu_utils::language::Language;
use snips_nlu_utils::string::hash_str_to_i32;
use snips_nlu_utils::token::tokenize_light;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::Path;

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct ModelSpec {
    pub seed: u64,
    pub intents: Vec<usize>,
    /// order of the intent parsers: 0 deterministic, 1 lookup, 2 probabilistic
    pub parsers: Vec<u8>,
    pub stems: bool,
    pub clusters: u8,
    pub gazetteers: bool,
    pub stop_words: bool,
    pub builtin_gaz: bool,
    /// 0 with stems, 1 without stems, 2 both
    pub usage: u8,
    pub threshold: f32,
    pub tagging: u8,
    pub ties: bool,
    pub cooc: bool,
    /// language of the model
    #[serde(default)] pub lang: u8,
    /// 0 trained classifier, 1 without featurizer, 2 one class only, 3 binary
    #[serde(default)] pub classifier: u8,
    /// cooccurrence vectorizer: bit 0 order ignored, bit 1 no replacement string, bit 2 unbounded window
    #[serde(default)] pub cooc_mode: u8,
    /// several and large resource files
    #[serde(default)] pub wide: bool,
    /// 0: the tagger decides by its weights; otherwise the simulator decides its answers
    #[serde(default)] pub tagger: u64,
    /// 0: a usual set of features for the tagger; otherwise any
    #[serde(default)] pub feats: u64,
    /// != 0: other resources and entity values than usual
    #[serde(default)] pub vary: u64,
}
pub static LANGS: &[&str] = &["en", "fr", "de", "es", "ja", "pt_br", "it", "ko", "pt_pt"];
impl ModelSpec {
    pub fn gen(r: &mut Rng) -> ModelSpec {
        let mut ids: Vec<usize> = (0..INTENTS.len()).collect();
        r.shuffle(&mut ids);
        let n = r.range(2, INTENTS.len() as i64) as usize;
        ids.truncate(n);
        let parsers = match r.below(10) { 0 => vec![0], 1 => vec![1], 2 => vec![2], 3 => vec![0, 2], 4 => vec![1, 2], 5 => vec![1, 0, 2], 6 => vec![2, 0], _ => vec![0, 1, 2] };
        let stems = r.chance(2, 3);
        ModelSpec {
            seed: r.next() >> 12, intents: ids, parsers, stems, clusters: r.below(4) as u8, gazetteers: r.chance(1, 2), stop_words: r.chance(1, 2),
            builtin_gaz: r.chance(2, 3), usage: if stems { r.below(3) as u8 } else { 1 }, threshold: *r.pick(&[1.0, 1.0, 0.5, 0.7]),
            tagging: r.below(3) as u8, ties: r.chance(2, 3), cooc: r.chance(1, 2),
            lang: if r.chance(1, 4) { r.below(LANGS.len()) as u8 } else { 0 }, classifier: match r.below(12) { 0 => 1, 1 => 2, 2 => 3, _ => 0 },
            cooc_mode: if r.chance(1, 2) { r.below(8) as u8 } else { 0 }, wide: r.chance(1, 8), tagger: 0, feats: 0, vary: 0,
        }
    }
    /// is the word left out of the utterances of an intent?
    pub fn stops(&self, intent: &str, w: &str) -> bool { self.stop_words && STOP_WORDS.contains(&w) && self.has(w) && !self.kept(intent, w) }
    /// is the word on the intent's list of words that are kept although they are stop words?
    pub fn kept(&self, intent: &str, w: &str) -> bool { self.intent_defs().first().map(|d| d.name) == Some(intent) && w == "please" || mix(mix_str(self.seed, intent), mix_str(7, w)) & 7 == 0 }
    fn whitelist(&self) -> Map<String, Value> {
        if !self.stop_words { return Map::new(); }
        self.intent_defs().iter().map(|d| (d.name.to_string(), json!(STOP_WORDS.iter().filter(|w| self.kept(d.name, w)).collect::<Vec<_>>()))).filter(|x| x.1 != json!([])).collect()
    }
    /// is this line, value or sentence part of the model?
    pub fn has(&self, what: &str) -> bool { self.vary == 0 || mix(mix_str(self.vary, what), 5) % 4 > 0 }
    pub fn lang(&self) -> &'static str { LANGS[self.lang as usize % LANGS.len()] }
    pub fn intent_defs(&self) -> Vec<&'static IntentDef> { self.intents.iter().map(|i| &INTENTS[*i % INTENTS.len()]).collect() }
    /// (intent, template) pairs in use
    pub fn templates(&self) -> Vec<(&'static str, &'static str)> {
        let mut v = vec![];
        for d in self.intent_defs() {
            for (i, t) in d.templates.iter().enumerate() { if i == 0 || self.has(t) { v.push((d.name, *t)); } }
            if self.ties { for t in d.ties { if self.has(t) { v.push((d.name, *t)); } } }
        }
        v
    }
    /// simplifications for the minimiser, applied one at a time
    pub fn simpler(&self) -> Vec<ModelSpec> {
        let mut out = vec![];
        let mut add = |f: &dyn Fn(&mut ModelSpec)| { let mut m = self.clone(); f(&mut m); if m != *self { out.push(m); } };
        if self.intents.len() > 2 { for i in 0..self.intents.len() { add(&|m| { m.intents.remove(i); }); } }
        if self.parsers.len() > 1 { for i in 0..self.parsers.len() { add(&|m| { m.parsers.remove(i); }); } }
        add(&|m| { m.stems = false; m.usage = 1; });
        add(&|m| m.clusters = 0);
        add(&|m| m.gazetteers = false);
        add(&|m| m.stop_words = false);
        add(&|m| m.builtin_gaz = false);
        add(&|m| m.cooc = false);
        add(&|m| m.ties = false);
        add(&|m| m.threshold = 1.0);
        add(&|m| m.lang = 0);
        add(&|m| m.classifier = 0);
        add(&|m| m.cooc_mode = 0);
        add(&|m| m.wide = false);
        add(&|m| m.tagger = 0);
        add(&|m| m.feats = 0);
        add(&|m| m.vary = 0);
        out
    }
}

pub struct IntentDef { pub name: &'static str, pub slots: &'static [(&'static str, &'static str)], pub templates: &'static [&'static str], pub ties: &'static [&'static str] }
pub static INTENTS: &[IntentDef] = &[
    IntentDef { name: "MakeCoffee", slots: &[("number_of_cups", "snips/number"), ("coffee_temperature", "Temperature"), ("kind", "drink")],
        templates: &["make me {number_of_cups} cups of coffee", "make me {number_of_cups} {coffee_temperature} coffees", "brew a {coffee_temperature} coffee", "i want {kind} please", "coffee"],
        ties: &["make it {coffee_temperature}", "make it {coffee_temperature} now", "i want {number_of_cups}", "again", "do it"] },
    IntentDef { name: "MakeTea", slots: &[("number_of_cups", "snips/number"), ("tea_temperature", "Temperature")],
        templates: &["make me {number_of_cups} cups of tea", "brew a {tea_temperature} tea", "{number_of_cups} teas and {number_of_cups} biscuits", "tea please"],
        ties: &["make it {tea_temperature}", "make it hot now", "make it {tea_temperature} now", "i want {number_of_cups}", "again", "hello"] },
    IntentDef { name: "SetDevice", slots: &[("device", "device"), ("room", "room"), ("level", "snips/number"), ("temp", "Temperature"), ("at", "snips/datetime"), ("degrees", "snips/temperature")],
        templates: &["turn on the {device} in the {room}", "set the {device} to {level}", "turn off the {device} {at}", "set the {room} to {degrees}", "set the {device} in the {room} to {level} {at} please"],
        ties: &["make it {temp}", "make it {temp} {at}", "{room} {level}", "do it", "again"] },
    IntentDef { name: "SetAlarm", slots: &[("when", "snips/datetime"), ("for_how_long", "snips/duration"), ("room", "room"), ("who", "person")],
        templates: &["wake me up {when}", "set an alarm {when} in the {room}", "set a timer for {for_how_long}", "remind {who} {when}", "{when}", "wake {who} {when} in the {room}"],
        ties: &["{who} {when}", "again", "{room} now", "hello"] },
    IntentDef { name: "PlayMusic", slots: &[("artist", "snips/musicArtist"), ("city", "snips/city"), ("room", "room"), ("when", "snips/datetime"), ("song", "song")],
        templates: &["play {artist}", "play {song} by {artist}", "play {artist} in the {room}", "what is on in {city} {when}", "play {song}", "play {artist} in {city} in the {room}"],
        ties: &["{room} {when}", "play help", "hello", "again", "do it"] },
    IntentDef { name: "Call", slots: &[("who", "person"), ("when", "snips/datetime"), ("position", "snips/ordinal")],
        templates: &["call {who}", "call {who} {when}", "call {who} and {who}", "call {who} {when} and {who}", "pick the {position} one"],
        ties: &["{who} {when}", "hello", "make it hot now", "again", "do it"] },
    IntentDef { name: "MakeInfusion", slots: &[("pots", "snips/number"), ("warmth", "Temperature")],
        templates: &["make me {pots} pots of infusion", "a {warmth} infusion please", "{pots} {warmth} infusions to go", "infusion"],
        ties: &["make it {warmth}", "i want {pots}", "tea please", "infusion please"] },
    IntentDef { name: "Leave", slots: &[], templates: &["good bye", "see you later", "please go", "go to bed"], ties: &["hello", "again", "good morning please", "see you"] },
    IntentDef { name: "Greet", slots: &[], templates: &["hello there", "good morning", "how are you"], ties: &["hello", "make it hot now", "again", "do it"] },
];

pub struct EntityDef { pub name: &'static str, pub extensible: bool, pub values: &'static [(&'static str, &'static str)] }
pub static ENTITIES: &[EntityDef] = &[
    EntityDef { name: "Temperature", extensible: false, values: &[("hot", "hot"), ("iced", "iced"), ("boiling hot", "boiling"), ("cold", "cold"), ("chilled", "cold")] },
    EntityDef { name: "room", extensible: true, values: &[("kitchen", "kitchen"), ("living room", "living room"), ("lounge", "living room"), ("bedroom", "bedroom"), ("den", "office"), ("den", "study"), ("den", "cave")] },
    EntityDef { name: "drink", extensible: true, values: &[("espresso", "espresso"), ("latte", "latte"), ("hot chocolate", "chocolate"), ("two shots", "double")] },
    EntityDef { name: "device", extensible: false, values: &[("light", "light"), ("lights", "light"), ("lamp", "light"), ("night light", "night light"), ("heater", "heater"), ("lamp", "heater")] },
    EntityDef { name: "person", extensible: true, values: &[("alice", "alice"), ("bob", "bob"), ("mary jane", "mary"), ("al", "alice"), ("al", "albert")] },
    EntityDef { name: "song", extensible: true, values: &[("yesterday", "yesterday"), ("one more time", "one more time"), ("help", "help"), ("hello", "hello")] },
];
/// values of extensible entities the deterministic patterns know but the entity parsers do not recognise
pub static LITERALS: &[(&str, &str)] = &[("room", "attic"), ("room", "wine cellar"), ("drink", "mocha"), ("drink", "caf\u{e9} cr\u{e8}me"), ("person", "carol"), ("person", "jo ann"), ("song", "imagine"), ("song", "la vie en rose")];
/// grammar entities that have a gazetteer parser
pub static BUILTIN_GAZ: &[EntityDef] = &[
    EntityDef { name: "snips/musicArtist", extensible: true, values: &[("the beatles", "The Beatles"), ("queen", "Queen"), ("daft punk", "Daft Punk"), ("queen", "Queen Latifah")] },
    EntityDef { name: "snips/city", extensible: true, values: &[("paris", "Paris"), ("london", "London"), ("new york", "New York")] },
];
static GRAMMAR_WORDS: &[(&str, &[&str])] = &[
    ("snips/number", &["two", "three", "one", "12", "7", "twenty", "ten"]),
    ("snips/datetime", &["tomorrow", "tonight", "at 5", "in 10 minutes", "now", "today", "at nine", "in two hours", "this week"]),
    ("snips/duration", &["5 minutes", "two hours", "10 minutes"]),
    ("snips/temperature", &["20 degrees", "twelve degrees"]),
    ("snips/ordinal", &["first", "third"]),
];
static STEMS: &[&[&str]] = &[&["mak", "make", "making", "makes", "made"], &["cup", "cup", "cups"], &["light", "lights", "lighting"], &["play", "playing", "plays"], &["coffe", "coffee", "coffees"],
    &["room", "rooms"], &["lamp", "lamps"], &["boil", "boiling"], &["chill", "chilled"], &["call", "calling"], &["morn", "morning"], &["tea", "teas"]];
static CLUSTERS: &[(&str, &str)] = &[("make", "1"), ("brew", "1"), ("turn", "2"), ("set", "2"), ("play", "3"), ("call", "3"), ("coffee", "4"), ("tea", "4"), ("light", "5"), ("lamp", "5"), ("living room", "6"), ("kitchen", "6"), ("é", "7"), ("ünïcode", "8"), ("unicode", "9"), ("slow", "65535"), ("x", "8")];
/// The file of clusters: numbers only, names only, or numbers with a name somewhere among them.
pub fn cluster_name(m: &ModelSpec, i: usize) -> String { let v = CLUSTERS[i].1; match m.clusters { 1 => v.to_string(), 2 => format!("c{}", v), _ => if i == mix(m.seed, 82) as usize % CLUSTERS.len() { format!("c{}", v) } else { v.to_string() } } }
pub static STOP_WORDS: &[&str] = &["the", "a", "please", "me", "an", "to"];
static COMMON: &[&str] = &["make", "coffee", "tea", "the", "turn", "play", "call", "hello", "cup", "light", "room"];
static FILLERS: &[&str] = &["please", "the", "coffee", "now", "really", "hot", "bob", "é", "ünïcode", "日本", "?", "!", "%", "two", "in", "kitchen", "lamp", "🙂", "don't", "I", "x", "makes", "made", "slow", "unicode", "queen", "al", "at", "5", "den", "İ", "STRASSE", "ß", "\u{212a}ing", "\t", "e\u{301}", "%"];

pub fn entity_of(intent: &str, slot: &str) -> Option<&'static str> {
    INTENTS.iter().find(|d| d.name == intent).and_then(|d| d.slots.iter().find(|s| s.0 == slot)).map(|s| s.1)
}
pub fn custom_entities(m: &ModelSpec) -> Vec<&'static EntityDef> {
    let used: BTreeSet<&str> = m.intent_defs().iter().flat_map(|d| d.slots.iter().map(|s| s.1)).collect();
    let mut v: Vec<&EntityDef> = ENTITIES.iter().filter(|e| used.contains(e.name)).collect();
    // a model always has some injectable entities
    for e in ENTITIES.iter().take(3) { if !v.iter().any(|x| x.name == e.name) { v.push(e); } }
    v
}

// ---- sentences ----
pub fn entity_value(r: &mut Rng, entity: &str) -> String {
    if let Some(g) = GRAMMAR_WORDS.iter().find(|g| g.0 == entity) { return r.pick(g.1).to_string(); }
    for e in ENTITIES.iter().chain(BUILTIN_GAZ) { if e.name == entity { let l: Vec<_> = LITERALS.iter().filter(|l| l.0 == entity).collect(); if !l.is_empty() && r.chance(1, 7) { return r.pick(&l).1.to_string(); } if r.chance(5, 6) { return r.pick(e.values).0.to_string(); } } }
    r.pick(FILLERS).to_string()
}
pub fn fill(r: &mut Rng, intent: &str, template: &str) -> String {
    let mut out = String::new();
    for p in parts(template) {
        match p { Part::Text(t) => out.push_str(&t), Part::Slot(s) => out.push_str(&entity_value(r, entity_of(intent, &s).unwrap_or(""))) }
    }
    out
}
pub fn sentence(r: &mut Rng, m: &ModelSpec) -> String {
    if r.chance(1, 12) { return (0..r.below(6)).map(|_| r.pick(FILLERS).to_string()).collect::<Vec<_>>().join(" "); }
    let t = m.templates();
    let (intent, tpl) = *r.pick(&t);
    let mut s = fill(r, intent, tpl);
    match r.below(10) {
        0 => s = s.to_uppercase(),
        1 => { let f = *r.pick(FILLERS); s = format!("{} {}", s, f); }
        2 => { let f = *r.pick(FILLERS); s = format!("{} {}", f, s); }
        3 => s = s.replace(' ', "  "),
        4 => { let mut w: Vec<String> = s.split(' ').map(|x| x.to_string()).collect(); let i = r.below(w.len()); w.insert(i, r.pick(FILLERS).to_string()); s = w.join(" "); }
        5 => { let mut w: Vec<&str> = s.split(' ').collect(); let i = r.below(w.len()); w.remove(i); s = w.join(" "); }
        6 => s = format!("{}?", s),
        _ => {}
    }
    s
}

// ---- templates ----
#[derive(Debug, Clone, PartialEq)]
pub enum Part { Text(String), Slot(String) }
pub fn parts(t: &str) -> Vec<Part> {
    let mut out = vec![];
    let mut rest = t;
    while let Some(i) = rest.find('{') {
        if i > 0 { out.push(Part::Text(rest[..i].to_string())); }
        let j = rest.find('}').unwrap();
        out.push(Part::Slot(rest[i + 1..j].to_string()));
        rest = &rest[j + 1..];
    }
    if !rest.is_empty() { out.push(Part::Text(rest.to_string())); }
    out
}
fn placeholder(entity: &str) -> String { format!("%{}%", tokenize_light(entity, Language::EN).join("").to_uppercase()) }
fn esc(s: &str) -> String { s.chars().map(|c| if c.is_alphanumeric() || c == ' ' { c.to_string() } else { format!("\\{}", c) }).collect() }
fn rnd(seed: u64, key: &str) -> f64 { ((mix(mix_str(seed, key), 99) >> 11) as f64 / (1u64 << 53) as f64) - 0.5 }
pub fn unb64(s: &str) -> String {
    static T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for b in s.bytes() { if let Some(i) = T.iter().position(|x| *x == b) { acc = acc << 6 | i as u32; bits += 6; if bits >= 8 { bits -= 8; out.push((acc >> bits) as u8); acc &= (1 << bits) - 1; } } }
    String::from_utf8_lossy(&out).into_owned()
}
pub fn b64(s: &str) -> String {
    const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in s.as_bytes().chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        for k in 0..4 { out.push(if k <= c.len() { T[(n >> (18 - 6 * k)) as usize & 63] as char } else { '=' }); }
    }
    out
}

struct W<'a> { root: &'a Path }
impl<'a> W<'a> {
    fn put(&self, rel: &str, data: &[u8]) {
        let p = self.root.join(rel);
        fs::create_dir_all(p.parent().unwrap()).expect("model dir");
        fs::write(&p, data).expect("model file");
    }
    fn json(&self, rel: &str, v: Value) { self.put(rel, &serde_json::to_vec(&v).unwrap()); }
}
pub fn gazetteer_bytes(injected: &[(String, String)], values: &[(String, String)]) -> Vec<u8> {
    let mut b = b"GZP1".to_vec();
    let put = |b: &mut Vec<u8>, s: &str| { b.extend_from_slice(&(s.len() as u32).to_le_bytes()); b.extend_from_slice(s.as_bytes()); };
    for l in [injected, values] {
        b.extend_from_slice(&(l.len() as u32).to_le_bytes());
        for (raw, res) in l { put(&mut b, raw); put(&mut b, res); }
    }
    b.extend_from_slice(b"END.");
    b
}
fn stem_word(w: &str) -> String { for l in STEMS { if l[1..].contains(&w) { return l[0].to_string(); } } w.to_string() }
pub fn stem_value(v: &str) -> String { tokenize_light(v, Language::EN).iter().map(|w| stem_word(w)).collect::<Vec<_>>().join(" ") }
/// The (raw, resolved) list a parser usage makes of a list of values.
pub fn usage_values(usage: u8, vals: &[(String, String)]) -> Vec<(String, String)> {
    let stemmed: Vec<(String, String)> = vals.iter().map(|(r, v)| (stem_value(r), v.clone())).collect();
    match usage { 0 => stemmed, 1 => vals.to_vec(), _ => { let mut x = vals.to_vec(); for s in stemmed { if !x.contains(&s) { x.push(s); } } x } }
}
fn entity_dir(i: usize) -> String { format!("parser_{}", i + 1) }
/// Where an entity's gazetteer data lives, relative to the model directory.
pub fn entity_parser_dir(m: &ModelSpec, entity: &str) -> Option<String> {
    if let Some(i) = custom_entities(m).iter().position(|e| e.name == entity) { return Some(format!("custom_entity_parser/parser/{}", entity_dir(i))); }
    if m.builtin_gaz { if let Some(i) = BUILTIN_GAZ.iter().position(|e| e.name == entity) { return Some(format!("builtin_entity_parser/gazetteer_entity_parser/{}", entity_dir(i))); } }
    None
}

pub fn write(m: &ModelSpec, root: &Path) { write_version(m, root, snips_nlu_lib::MODEL_VERSION) }
pub fn write_version(m: &ModelSpec, root: &Path, version: &str) {
    let w = W { root };
    let defs = m.intent_defs();
    let ents = custom_entities(m);
    let names = ["deterministic_intent_parser", "lookup_intent_parser", "probabilistic_intent_parser"];
    let mappings: Map<String, Value> = defs.iter().map(|d| (d.name.to_string(), Value::Object(d.slots.iter().map(|(s, e)| (s.to_string(), json!(e))).collect()))).collect();
    w.json("nlu_engine.json", json!({
        "unit_name": "nlu_engine",
        "dataset_metadata": { "language_code": m.lang(), "entities": ents.iter().map(|e| (e.name.to_string(), json!({"automatically_extensible": e.extensible != (m.vary > 0 && !m.has(e.name))}))).collect::<Map<_, _>>(), "slot_name_mappings": mappings },
        "intent_parsers": m.parsers.iter().map(|p| names[*p as usize]).collect::<Vec<_>>(),
        "model_version": version, "training_package_version": "0.20.0",
        "builtin_entity_parser": "builtin_entity_parser", "custom_entity_parser": "custom_entity_parser",
    }));
    // resources
    let res = format!("resources/{}", m.lang());
    let mut meta = json!({ "language": m.lang() });
    if m.stems {
        meta["stems"] = json!("stems");
        let big: String = if m.wide { (0..700).map(|i| format!("stem{},stemming{},stemmed{}\n", i, i, i)).collect() } else { String::new() };
        w.put(&format!("{}/stemming/stems.txt", res), (big + &STEMS.iter().filter(|l| m.has(l[0])).map(|l| l.join(",") + "\n").collect::<String>()).as_bytes());
    }
    if m.gazetteers {
        meta["gazetteers"] = if m.wide { json!(["names", "top_words"]) } else { json!(["top_words"]) };
        let big: String = if m.wide { (0..1500).map(|i| format!("rare{}\n", i)).collect() } else { String::new() };
        w.put(&format!("{}/gazetteers/top_words.txt", res), (big + &COMMON.iter().filter(|w| m.has(w)).cloned().collect::<Vec<_>>().join("\n") + "\n").as_bytes());
        if m.wide { w.put(&format!("{}/gazetteers/names.txt", res), (COMMON[3..].join("\n") + "\nalice\nbob\nqueen\n").as_bytes()); }
    }
    if m.clusters > 0 {
        meta["word_clusters"] = if m.wide { json!(["brown", "vectors"]) } else { json!(["brown"]) };
        let mut t = String::new();
        if m.wide { for i in 0..900 { t.push_str(&format!("word{}\t{}\n", i, i % 50)); } }
        for (i, (k, _)) in CLUSTERS.iter().enumerate() { if m.has(k) { t.push_str(&format!("{}\t{}\n", k, cluster_name(m, (i + m.vary as usize % 3) % CLUSTERS.len()))); } }
        w.put(&format!("{}/word_clusters/brown.txt", res), t.as_bytes());
        if m.wide { w.put(&format!("{}/word_clusters/vectors.txt", res), CLUSTERS.iter().map(|(k, v)| format!("{}\tv{}\n", k, v)).collect::<String>().as_bytes()); }
    }
    if m.stop_words || mix(m.seed, 80) & 1 == 0 { meta["stop_words"] = json!("stop_words"); let big: String = if m.wide { (0..1200).map(|i| format!("stopword{}\n", i)).collect() } else { String::new() }; w.put(&format!("{}/stop_words.txt", res), (big + &STOP_WORDS.iter().filter(|w| m.has(w)).cloned().collect::<Vec<_>>().join("\n") + "\n").as_bytes()); }
    w.json(&format!("{}/metadata.json", res), meta);
    // entity parsers
    let own = |v: &[(&str, &str)]| v.iter().filter(|(a, _)| m.has(a)).map(|(a, b)| (a.to_string(), if m.vary > 0 && m.has(b) { format!("{} {}", b, m.vary % 9) } else { b.to_string() })).collect::<Vec<_>>();
    let gaz = |dir: &str, defs: &[&EntityDef], usage: u8, threshold: f32| {
        let metas: Vec<Value> = defs.iter().enumerate().map(|(i, e)| json!({"entity_identifier": e.name, "entity_parser": entity_dir(i)})).collect();
        w.json(&format!("{}/metadata.json", dir), json!({ "parsers_metadata": metas }));
        for (i, e) in defs.iter().enumerate() {
            let d = format!("{}/{}", dir, entity_dir(i));
            w.json(&format!("{}/metadata.json", d), json!({"version": "0.7.0", "parser_filename": "parser", "threshold": threshold, "stop_words": [], "edge_cases": []}));
            w.put(&format!("{}/parser", d), &gazetteer_bytes(&[], &usage_values(usage, &own(e.values))));
        }
    };
    w.json("custom_entity_parser/metadata.json", json!({"language": m.lang(), "parser_directory": "parser", "parser_usage": m.usage}));
    gaz("custom_entity_parser/parser", &ents, m.usage, m.threshold);
    w.json("builtin_entity_parser/metadata.json", json!({"language": m.lang(), "gazetteer_parser": if m.builtin_gaz { json!("gazetteer_entity_parser") } else { Value::Null }}));
    if m.builtin_gaz { gaz("builtin_entity_parser/gazetteer_entity_parser", &BUILTIN_GAZ.iter().collect::<Vec<_>>(), 1, 1.0); }
    for p in &m.parsers {
        let dir = names[*p as usize];
        w.json(&format!("{}/metadata.json", dir), json!({ "unit_name": dir }));
        match p { 0 => w.json(&format!("{}/intent_parser.json", dir), deterministic(m)), 1 => w.json(&format!("{}/intent_parser.json", dir), lookup(m)), _ => probabilistic(m, &w, dir) }
    }
}

fn deterministic(m: &ModelSpec) -> Value {
    let mut slots: Vec<&str> = m.intent_defs().iter().flat_map(|d| d.slots.iter().map(|s| s.0)).collect();
    slots.sort(); slots.dedup();
    let group = |s: &str| format!("group{}", slots.iter().position(|x| *x == s).unwrap());
    let mut patterns: BTreeMap<&str, Vec<String>> = m.intent_defs().iter().map(|d| (d.name, vec![])).collect();
    for (intent, t) in m.templates() {
        let mut re = String::from("^\\s*");
        let mut seen: BTreeMap<String, usize> = BTreeMap::new();
        for p in parts(t) {
            match p {
                Part::Text(t) => { let x: Vec<String> = t.split(' ').map(|w| if m.stops(intent, w) { "".into() } else { esc(w) }).filter(|w| !w.is_empty()).collect();
                    if t.starts_with(' ') { re.push_str("\\s*"); } re.push_str(&x.join("\\s+")); if t.ends_with(' ') { re.push_str("\\s*"); } }
                Part::Slot(s) => {
                    let k = seen.entry(s.clone()).or_insert(0); *k += 1;
                    let g = if *k == 1 { group(&s) } else { format!("{}_{}", group(&s), k) };
                    let e = entity_of(intent, &s).unwrap();
                    let mut alts = vec![esc(&placeholder(e))];
                    if let Some(d) = ENTITIES.iter().find(|d| d.name == e) { if d.extensible { alts.extend(d.values.iter().map(|v| esc(v.0).replace(' ', "\\s+"))); alts.extend(LITERALS.iter().filter(|l| l.0 == d.name).map(|l| esc(l.1).replace(' ', "\\s+"))); } }
                    re.push_str(&format!("(?P<{}>{})", g, alts.join("|")));
                }
            }
        }
        re.push_str("\\s*$");
        patterns.get_mut(intent).unwrap().push(re);
    }
    json!({
        "language_code": m.lang(), "patterns": patterns,
        "group_names_to_slot_names": slots.iter().map(|s| (group(s), json!(s))).collect::<Map<_, _>>(),
        "slot_names_to_entities": m.intent_defs().iter().map(|d| (d.name.to_string(), Value::Object(d.slots.iter().map(|(s, e)| (s.to_string(), json!(e))).collect()))).collect::<Map<_, _>>(),
        "stop_words_whitelist": m.whitelist(), "config": {"ignore_stop_words": m.stop_words},
    })
}

fn lookup(m: &ModelSpec) -> Value {
    let defs = m.intent_defs();
    let intents: Vec<&str> = defs.iter().map(|d| d.name).collect();
    let mut slots: Vec<&str> = defs.iter().flat_map(|d| d.slots.iter().map(|s| s.0)).collect();
    slots.sort(); slots.dedup();
    let mut map = Map::new();
    for (intent, t) in m.templates() {
        let mut text = String::new();
        let mut ids = vec![];
        for p in parts(t) { match p { Part::Text(t) => text.push_str(&t), Part::Slot(s) => { text.push_str(&placeholder(entity_of(intent, &s).unwrap())); ids.push(slots.iter().position(|x| *x == s).unwrap()); } } }
        let key = tokenize_light(&text, Language::EN).into_iter().filter(|w| !m.stops(intent, w)).collect::<Vec<_>>().join(" ").to_lowercase();
        map.insert(hash_str_to_i32(&key).to_string(), json!([intents.iter().position(|x| *x == intent).unwrap(), ids]));
    }
    // intents with the same entities share a scope
    let mut scopes: Vec<(Value, Vec<&str>)> = vec![];
    for d in &defs {
        let mut b: Vec<&str> = d.slots.iter().map(|s| s.1).filter(|e| e.starts_with("snips/")).collect(); b.sort(); b.dedup();
        let mut c: Vec<&str> = d.slots.iter().map(|s| s.1).filter(|e| !e.starts_with("snips/")).collect(); c.sort(); c.dedup();
        let scope = json!({"builtin": b, "custom": c});
        match scopes.iter_mut().find(|s| s.0 == scope) { Some(s) => s.1.push(d.name), None => scopes.push((scope, vec![d.name])) }
    }
    let scopes: Vec<Value> = scopes.into_iter().map(|(s, g)| json!({"intent_group": g, "entity_scope": s})).collect();
    json!({ "language_code": m.lang(), "slots_names": slots, "intents_names": intents, "map": map, "entity_scopes": scopes, "stop_words_whitelist": m.whitelist(), "config": {"ignore_stop_words": m.stop_words} })
}

fn feature_word(e: &str) -> String {
    let t = tokenize_light(&e.to_lowercase(), Language::EN).join("");
    if e.starts_with("snips/") { format!("builtinentityfeature{}", t) } else { format!("entityfeature{}", t) }
}
fn probabilistic(m: &ModelSpec, w: &W, dir: &str) {
    let defs = m.intent_defs();
    let fillers: Vec<Value> = defs.iter().enumerate().map(|(i, d)| json!({"intent": d.name, "slot_filler_name": format!("slot_filler_{}", i)})).collect();
    w.json(&format!("{}/intent_parser.json", dir), json!({ "slot_fillers": fillers }));
    // vocabulary and weights
    let norm = |s: &str| if m.stems { stem_word(s) } else { s.to_string() };
    let mut per_intent: BTreeMap<&str, BTreeSet<String>> = BTreeMap::new();
    for (intent, t) in m.templates() {
        for p in parts(t) { match p {
            Part::Text(x) => for tok in tokenize_light(&x, Language::EN) { per_intent.entry(intent).or_default().insert(norm(&tok)); },
            Part::Slot(s) => { per_intent.entry(intent).or_default().insert(feature_word(entity_of(intent, &s).unwrap())); }
        } }
    }
    let mut vocab: BTreeSet<String> = per_intent.values().flatten().cloned().collect();
    if m.clusters > 0 { for i in 0..CLUSTERS.len() { vocab.insert(cluster_name(m, i)); } }
    let vocab: Vec<String> = vocab.into_iter().collect();
    let mut pairs: Vec<(String, String)> = vec![];
    if m.cooc {
        for (intent, t) in m.templates() {
            let mut text = String::new();
            for p in parts(t) { match p { Part::Text(x) => text.push_str(&x), Part::Slot(s) => text.push_str(&tokenize_light(entity_of(intent, &s).unwrap(), Language::EN).join("").to_uppercase()) } }
            let toks = tokenize_light(&text, Language::EN);
            for k in 1..toks.len() { for j in 0..k { let mut p = (toks[j].clone(), toks[k].clone()); if m.cooc_mode & 1 > 0 && p.0 > p.1 { p = (p.1, p.0); } if !pairs.contains(&p) { pairs.push(p); } } }
        }
        pairs.sort_by_key(|p| mix_str(m.seed, &format!("{:?}", p)));
        pairs.truncate(60);
    }
    let mut classes: Vec<Value> = defs.iter().map(|d| json!(d.name)).collect();
    classes.push(Value::Null);
    let mut coeffs = vec![];
    for d in defs.iter() {
        let mut row: Vec<f64> = vocab.iter().map(|v| { let base = if per_intent.get(d.name).map(|s| s.contains(v)).unwrap_or(false) { 2.5 } else { -0.8 }; round(base + 1.5 * rnd(m.seed, &format!("w{}{}", d.name, v))) }).collect();
        row.extend(pairs.iter().map(|p| round(rnd(m.seed, &format!("p{}{:?}", d.name, p)))));
        coeffs.push(row);
    }
    let mut none: Vec<f64> = vocab.iter().map(|v| round(-1.0 + rnd(m.seed, &format!("n{}", v)))).collect();
    none.extend(pairs.iter().map(|_| -0.25));
    coeffs.push(none);
    let intercept: Vec<f64> = classes.iter().map(|c| if c.is_null() { 0.3 } else { round(-0.6 + 0.3 * rnd(m.seed, &format!("i{}", c))) }).collect();
    let (mut intercept, mut coeffs) = (json!(intercept), json!(coeffs));
    let mut featurizer = json!("featurizer");
    match m.classifier {
        1 => { intercept = Value::Null; coeffs = Value::Null; featurizer = Value::Null; }
        2 => { intercept = Value::Null; coeffs = Value::Null; featurizer = Value::Null; classes = match mix(m.seed, 77) % 5 { 0 => vec![], 1 => vec![Value::Null], _ => vec![classes[0].clone()] }; }
        3 => { intercept = json!([intercept[0]]); coeffs = json!([coeffs[0]]); classes = vec![Value::Null, classes[0].clone()]; }
        _ => {}
    }
    let ic = format!("{}/intent_classifier", dir);
    w.json(&format!("{}/metadata.json", ic), json!({"unit_name": "log_reg_intent_classifier"}));
    w.json(&format!("{}/intent_classifier.json", ic), json!({"featurizer": featurizer, "intercept": intercept, "coeffs": coeffs, "intent_list": classes}));
    if m.classifier == 1 || m.classifier == 2 { for (i, d) in defs.iter().enumerate() { slot_filler(m, w, &format!("{}/slot_filler_{}", dir, i), d); } return; }
    let f = format!("{}/featurizer", ic);
    w.json(&format!("{}/featurizer.json", f), json!({"language_code": m.lang(), "tfidf_vectorizer": "tfidf_vectorizer", "cooccurrence_vectorizer": if m.cooc { json!("cooccurrence_vectorizer") } else { Value::Null }}));
    let mut scope: Vec<&str> = defs.iter().flat_map(|d| d.slots.iter().map(|s| s.1)).filter(|e| e.starts_with("snips/")).collect();
    scope.sort(); scope.dedup();
    w.json(&format!("{}/tfidf_vectorizer/vectorizer.json", f), json!({
        "language_code": m.lang(), "builtin_entity_scope": scope,
        "vectorizer": {"idf_diag": vocab.iter().map(|v| round(1.5 + rnd(m.seed, &format!("d{}", v)))).collect::<Vec<_>>(), "vocab": vocab.iter().enumerate().map(|(i, v)| (v.clone(), json!(i))).collect::<Map<_, _>>()},
        "config": {"use_stemming": m.stems, "word_clusters_name": if m.clusters > 0 { json!("brown") } else { Value::Null }},
    }));
    if m.cooc {
        w.json(&format!("{}/cooccurrence_vectorizer/vectorizer.json", f), json!({
            "language_code": m.lang(), "builtin_entity_scope": scope,
            "word_pairs": pairs.iter().enumerate().map(|(i, p)| (i.to_string(), json!([p.0, p.1]))).collect::<Map<_, _>>(),
            "config": {"window_size": if m.cooc_mode & 4 > 0 { Value::Null } else { json!([5, 1, 2, 3][(mix(m.seed, 78) & 3) as usize]) }, "filter_stop_words": mix(m.seed, 81) & 1 == 0, "keep_order": m.cooc_mode & 1 == 0, "unknown_words_replacement_string": if m.cooc_mode & 2 > 0 { Value::Null } else { json!("rareword") }},
        }));
    }
    for (i, d) in defs.iter().enumerate() { slot_filler(m, w, &format!("{}/slot_filler_{}", dir, i), d); }
}
fn round(x: f64) -> f64 { (x * 1000.).round() / 1000. }

/// Any features at any offsets, in any order; those the weights of the tagger stand-in refer to stay.
fn any_features(m: &ModelSpec, d: &IntentDef, feats: &mut Vec<Value>) {
    let mut r = Rng::new(mix(m.feats, mix_str(m.seed, d.name)));
    feats.retain(|f| f["factory_name"].as_str().map(|n| n.contains("entity_match")).unwrap_or(false) || r.chance(1, 4));
    for _ in 0..r.range(1, 8) {
        let mut o: Vec<i64> = (-3..4).filter(|_| r.chance(1, 3)).collect();
        if o.is_empty() { o.push(r.range(-4, 4)); }
        r.shuffle(&mut o);
        let n = r.range(1, 4);
        let list = if m.gazetteers && r.chance(1, 2) { json!(if m.wide && r.chance(1, 2) { "names" } else { "top_words" }) } else { Value::Null };
        let stems = m.stems && r.chance(1, 2);
        let (name, args) = match r.below(11) {
            0 => ("is_digit", json!({})), 1 => ("length", json!({})), 2 => ("is_first", json!({})), 3 => ("is_last", json!({})),
            4 | 5 => ("ngram", json!({"n": n, "common_words_gazetteer_name": list, "use_stemming": stems})),
            6 | 7 => ("shape_ngram", json!({"n": n})),
            8 => ("prefix", json!({"prefix_size": n})), 9 => ("suffix", json!({"suffix_size": n})),
            _ => if m.clusters > 0 { ("word_cluster", json!({"cluster_name": if m.wide { "vectors" } else { "brown" }})) } else { ("is_last", json!({})) },
        };
        feats.push(json!({"factory_name": name, "offsets": o, "args": args}));
    }
    r.shuffle(feats);
}

/// encoding of the entity matches announced to the tagger
pub fn match_scheme(m: &ModelSpec, d: &IntentDef) -> u8 { let k = mix_str(m.seed, d.name); if m.tagger > 0 && mix(k, 13) & 3 == 0 { 0 } else if mix(k, 12) & 1 == 0 { 1 } else { 2 } }
pub fn match_stems(m: &ModelSpec, d: &IntentDef) -> bool { if m.usage == 2 { m.stems && mix(mix_str(m.seed, d.name), 11) & 1 == 0 } else { m.usage == 0 } }
pub fn crf_labels(m: &ModelSpec, d: &IntentDef) -> Vec<String> {
    let pre: &[&str] = match m.tagging { 0 => &["I-"], 1 => &["B-", "I-"], _ => &["B-", "I-", "L-", "U-"] };
    let mut v = vec!["O".to_string()];
    for (s, _) in d.slots { for p in pre { v.push(format!("{}{}", p, s)); } }
    if m.feats > 0 { Rng::new(mix(m.feats, mix_str(m.seed, d.name))).shuffle(&mut v); }
    v
}
fn slot_filler(m: &ModelSpec, w: &W, dir: &str, d: &IntentDef) {
    w.json(&format!("{}/metadata.json", dir), json!({"unit_name": "crf_slot_filler"}));
    let has = !d.slots.is_empty();
    let k = mix_str(m.seed, d.name);
    let on = |bit: u64| mix(k, bit) & 1 == 0;
    let mut feats = vec![
        json!({"factory_name": "ngram", "offsets": [-1, 0, 1], "args": {"n": 1, "common_words_gazetteer_name": if m.gazetteers { json!("top_words") } else { Value::Null }, "use_stemming": m.stems && on(1)}}),
    ];
    if on(2) { feats.push(json!({"factory_name": "ngram", "offsets": [-2, 0], "args": {"n": 2, "common_words_gazetteer_name": if m.gazetteers && m.wide { json!("names") } else { Value::Null }, "use_stemming": false}})); }
    if on(3) { feats.push(json!({"factory_name": "shape_ngram", "offsets": [0], "args": {"n": 1}})); }
    if on(4) { feats.push(json!({"factory_name": "prefix", "offsets": [0], "args": {"prefix_size": 2}})); }
    if on(5) { feats.push(json!({"factory_name": "suffix", "offsets": [0, 1], "args": {"suffix_size": 2}})); }
    if on(6) { feats.push(json!({"factory_name": "is_first", "offsets": [0], "args": {}})); }
    if on(7) { feats.push(json!({"factory_name": "is_last", "offsets": [0], "args": {}})); }
    if on(8) { feats.push(json!({"factory_name": "is_digit", "offsets": [-1, 0], "args": {}})); }
    if on(9) { feats.push(json!({"factory_name": "length", "offsets": [0], "args": {}})); }
    if m.clusters > 0 && on(10) { feats.push(json!({"factory_name": "word_cluster", "offsets": [0], "args": {"cluster_name": if m.wide { "vectors" } else { "brown" }}})); }
    let code = match_scheme(m, d);
    let custom: BTreeSet<&str> = d.slots.iter().map(|s| s.1).filter(|e| !e.starts_with("snips/")).collect();
    let builtin: BTreeSet<&str> = d.slots.iter().map(|s| s.1).filter(|e| e.starts_with("snips/")).collect();
    if !custom.is_empty() { feats.push(json!({"factory_name": "entity_match", "offsets": [-1, 0], "args": {"entities": custom, "tagging_scheme_code": code, "use_stemming": match_stems(m, d)}})); }
    if !builtin.is_empty() { feats.push(json!({"factory_name": "builtin_entity_match", "offsets": [0, 1], "args": {"entity_labels": builtin, "tagging_scheme_code": code}})); }
    if m.feats > 0 { any_features(m, d, &mut feats); }
    w.json(&format!("{}/slot_filler.json", dir), json!({
        "language_code": m.lang(), "intent": d.name, "slot_name_mapping": d.slots.iter().map(|(s, e)| (s.to_string(), json!(e))).collect::<Map<_, _>>(),
        "crf_model_file": if has { json!("model.crfsuite") } else { Value::Null },
        "config": {"tagging_scheme": m.tagging, "feature_factory_configs": feats},
    }));
    if !has { return; }
    let labels = crf_labels(m, d);
    let mut t = String::from("SIMCRF1\n");
    for l in &labels { t.push_str(&format!("L\t{}\n", b64(l))); }
    t.push_str(&format!("H\t{}\t{}\n", k >> 20, if m.vary > 0 { 1.5 } else { 0.45 }));
    for (s, e) in d.slots {
        let f = if e.starts_with("snips/") { "builtin_entity_match" } else { "entity_match" };
        for (i, l) in labels.iter().enumerate() {
            if !l.ends_with(&format!("-{}", s)) { continue; }
            for (p, q, wt) in [("B-", "B-", 3.0), ("I-", "I-", 3.0), ("B-", "U-", 3.4), ("I-", "L-", 2.9), ("B-", "I-", if m.tagging == 0 { 3.0 } else { -1.0 }),
                ("U-", "B-", 3.0), ("U-", "U-", 3.4), ("U-", "I-", if m.tagging == 0 { 3.0 } else { -1.0 }), ("L-", "I-", 3.0), ("L-", "L-", 2.9)] { if l.starts_with(q) { t.push_str(&format!("S\t{}_{}={}\t{}\t{}\n", f, e, p, i, wt)); } }
        }
    }
    t.push_str("S\tngram_1=make\t0\t1.5\nS\tngram_1=the\t0\t1.5\n");
    for a in 0..labels.len() { for b in 0..labels.len() {
        let (la, lb) = (&labels[a], &labels[b]);
        let same = la.len() > 2 && lb.len() > 2 && la[2..] == lb[2..];
        let wt = if lb.starts_with("I-") && m.tagging > 0 { if same && !la.starts_with("U-") && !la.starts_with("L-") { 0.8 } else { -4.0 } } else { round(0.6 * rnd(k, &format!("{}{}", la, lb))) };
        t.push_str(&format!("T\t{}\t{}\t{}\n", a, b, wt));
    } }
    t.push_str("E\n");
    w.put(&format!("{}/model.crfsuite", dir), t.as_bytes());
}
