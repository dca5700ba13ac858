#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (one JSON object per line) from this table.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [], "mechanism": mech, "observe_at": obs or [], "hook_needed": hook}})
def m(name, where): return {"name": name, "where": where}
def s(name, meaning, where): return {"name": name, "meaning": meaning, "where": where}

ENG = "src/nlu_engine.rs"; BP = "src/entity_parser/builtin_entity_parser.rs"; CP = "src/entity_parser/custom_entity_parser.rs"
CA = "src/entity_parser/utils.rs"; CRF = "src/slot_filler/crf_slot_filler.rs"; INJ = "src/injection/injection.rs"
UT = "src/utils.rs"; LD = "src/resources/loading.rs"; FFI = "ffi/src/lib.rs"
DET = "src/intent_parser/deterministic_intent_parser.rs"; LK = "src/intent_parser/lookup_intent_parser.rs"; PR = "src/intent_parser/probabilistic_intent_parser.rs"
FE = "src/intent_classifier/featurizer.rs"; LR = "src/intent_classifier/log_reg_intent_classifier.rs"

p("C01", "Concurrent calls on one engine answer as they would alone",
  "When several threads use one loaded engine at the same time, every call (parse with or without alternatives and intent filters, intent ranking, slot extraction for an intent, single-slot extraction) returns exactly the result the same call gives when the engine is used by one thread only. No interleaving makes a call panic, deadlock or wait forever.",
  ["schedules", "inputs", "configurations"], "every interleaving of any number of threads making any mix of calls on any loadable model",
  "The tests make single-threaded calls on a handful of sentences; nothing explores interleavings of calls sharing the entity caches and the CRF taggers.",
  [ENG, BP, CP, CA, CRF, DET, LK, PR, FE],
  [m("mutex around each entity cache", BP), m("mutex around each entity cache", CP), m("mutex around the stateful tagger", CRF), m("all other engine state is immutable after load", ENG)],
  [s("entity caches", "memoised entity matches, shared by all callers", "src/entity_parser/*.rs"), s("tagger", "stateful CRF tagger shared by all callers", CRF)],
  ["SnipsNluEngine::parse_with_alternatives", "SnipsNluEngine::get_intents", "SnipsNluEngine::get_slots_with_alternatives", "SnipsNluEngine::extract_slot_with_alternatives"])
p("C02", "Earlier calls never change a later answer",
  "The answer of a call depends only on the loaded model, the arguments of that call and (for time-relative values) the clock: after any history of other calls on the same engine, a call returns what it returns as the first call on a freshly loaded engine. This holds however many distinct sentences came before, and when earlier calls used the same text with other intents, entities, intent filters, letter case or numbers of alternatives.",
  ["histories", "inputs", "configurations"], "every finite history of calls, including histories that overflow internal caches and repeat texts under different scopes",
  "Tests call a fresh engine once or twice; cache hits, evictions and key collisions over long mixed histories are never exercised.",
  [ENG, CA, BP, CP, CRF],
  [m("cache key covers text, entity scope and number of alternatives", CP), m("LRU cache returns clones of what the producer returned", CA)],
  [s("entity caches", "LRU maps from (text, scope, alternatives) to matches", "src/entity_parser/*.rs")],
  ["SnipsNluEngine public methods"])
p("C03", "A failing call harms only itself",
  "If an entity parser or the sequence tagger fails with an error during a call, that call returns an error (it never panics, and never returns an answer computed as if the failing component had found nothing). Every other call, concurrent or later, returns the same answer as if the failure had not happened: nothing wrong or incomplete is remembered and no lock stays held or poisoned.",
  ["fault_sequences", "schedules", "histories"], "every placement of component failures inside calls, sequentially or concurrently, on any model",
  "No test injects a failure into the entity parsers or the tagger.",
  [ENG, CA, BP, CP, CRF, DET, LK, FE, "src/slot_utils.rs", "src/slot_filler/feature_processor.rs"],
  [m("the cache stores a value only after the producer succeeded", CA), m("errors propagate with ? through every layer", ENG)],
  [s("entity caches", "must hold successful results only", CA)], ["Result of every SnipsNluEngine call"])
p("C04", "Time-relative values are resolved at the time of the call",
  "A resolved value that depends on the current time (such as a date or time meant relative to now) reflects the clock at the moment of the call that returns it, in parse results, slot lists, alternatives and single-slot extraction. Earlier calls on the same text, clock jumps in either direction and concurrent calls never make an answer carry a value resolved at another time.",
  ["histories", "schedules", "inputs"], "every history of calls and clock movements, forwards and backwards",
  "Tests use one instant; nothing moves the clock between calls that share cached entity matches.",
  [ENG, BP, "src/slot_utils.rs"],
  [m("slot resolution bypasses the builtin entity cache", BP), m("resolution re-extracts entities instead of reusing matching-time ones", ENG)],
  [s("builtin entity cache", "may hold values resolved in the past; must not reach answers", BP)], ["Slot.value and Slot.alternatives in every result"])
p("C05", "Answers do not depend on process randomness",
  "Loading the same model and making the same call gives the same answer, including the order of intents, slots and alternatives and the exact scores, in every process and for every value of the process's random hash seeds. Intents with equal scores are always ranked in the same order.",
  ["inputs", "configurations", "histories"], "every hash seed of the process, every model and sentence",
  "A test run samples one hash seed per process and compares few fields; order effects appear only under other seeds.",
  [ENG, DET, LK, FE, CRF],
  [m("order-insensitive use of hash maps; stable sorting of results", ENG)], [], ["order and scores in results"])
p("C06", "Loading survives I/O faults: a correct engine or a clean error",
  "While an engine is being loaded from a directory, any read-side I/O failure (missing file, permission, I/O error, too many open files) makes loading return an error, never a panic, a hang, a leaked file descriptor or an engine that behaves differently. Faults that are legal and recoverable (short reads, interrupted reads) are invisible: the engine answers exactly as one loaded without faults; after a failed load, a retry without faults succeeds.",
  ["fault_sequences", "configurations"], "every placement of I/O faults in the sequence of file operations of a load, for any model",
  "Tests load from a healthy disk only, apart from one missing-file case.",
  [ENG, LD, DET, LK, PR, LR, FE, CRF, BP, CP, "src/resources/gazetteer.rs", "src/resources/stemmer.rs", "src/resources/word_clusterer.rs"],
  [m("every open/read error is propagated with context", LD), m("model version is checked before anything else is loaded", ENG)], [], ["SnipsNluEngine::from_path"])
p("C07", "A damaged model is never a crash",
  "If any stored file of a model has been truncated, overwritten, torn, emptied or had bytes flipped, loading the engine terminates and returns either an engine or an error; it never panics, aborts or hangs. A model whose recorded version differs from the supported one is refused with an error that names both versions.",
  ["fault_sequences", "crash_points", "configurations"], "every damage (truncation point, flipped byte, torn or stale block) to every file of any model",
  "Tests load intact models; a single wrong-version case is covered.",
  [ENG, LD, LR, "src/intent_classifier/logreg.rs", FE, CRF, "src/resources/word_clusterer.rs", "src/resources/stemmer.rs", "src/resources/gazetteer.rs"],
  [m("deserialisation errors are returned, shapes are validated", LR)], [], ["SnipsNluEngine::from_path"])
p("C08", "Loading from a zip equals loading the directory, or fails cleanly",
  "An engine loaded from a zip archive of a model answers every call exactly like an engine loaded from the directory itself, however the archive's reader delivers its bytes (short reads, interruptions). If the reader or the disk fails at any point during extraction or loading, or the archive is truncated, the call returns an error; it never panics or hangs and never yields an engine built from a partially extracted model.",
  ["fault_sequences", "configurations"], "every placement of reader, disk-full, write and read faults during zip loading, for any model archive layout",
  "One test extracts one healthy archive and one rejects a bad entry; no reader or disk fault is injected.",
  [UT, ENG], [m("extraction copies every entry and propagates errors", UT), m("the extracted directory is loaded like any other", ENG)], [], ["SnipsNluEngine::from_zip"])
p("C09", "Zip loading stays in its own temporary directory and removes it",
  "Loading from a zip writes only inside a temporary directory of its own, whatever entry names the archive contains. When the call returns, successfully or with an error at any point, nothing it created is left on disk and no file descriptor stays open; concurrent zip loads never see or disturb each other's files.",
  ["fault_sequences", "schedules", "inputs"], "every archive (including hostile entry names), every fault placement, every interleaving of concurrent zip loads",
  "Tests check one extraction helper; cleanup after faults, containment and concurrent loads are not tested.",
  [UT, ENG], [m("private temporary directory removed on drop", ENG), m("entry names are sanitised before joining", UT)],
  [s("temporary directory", "holds the extracted model during loading only", ENG)], ["file system mutations made by SnipsNluEngine::from_zip"])
p("C10", "A crash during injection never destroys a model",
  "If the process is killed or the machine loses power at any point while values are being injected into a model directory (losing what was written to a file and not yet synchronised, on a disk that keeps the order of operations on names), the directory still loads afterwards, and for each entity the engine recognises either exactly the values from before or exactly the values from after the injection, never a mixture or a loss. Entities that were not part of the injection are unchanged, and repeating the injection afterwards succeeds and gives the same result as if no crash had happened.",
  ["crash_points", "configurations", "histories"], "every crash or power-loss point between (or inside) file operations of an injection of any values into any model",
  "Tests only run injections to completion on a healthy disk.",
  [INJ], [m("new parser data is written aside and switched in atomically", INJ)],
  [s("gazetteer parser directories", "durable entity values, replaced by an injection", INJ)], ["the engine directory after a crash", "SnipsNluEngine::from_path"])
p("C11", "A failing injection reports the error and leaves the model usable",
  "If a file operation needed by an injection fails (disk full, I/O error, permission, too many open files), the injection returns an error and the model directory still loads: each entity keeps exactly its previous values or has exactly the newly injected ones. A success is reported only if all requested values are in place, and once the faults stop, repeating the injection succeeds.",
  ["fault_sequences", "configurations", "histories"], "every placement of file-operation failures during injections into any model",
  "No test injects a file-system failure into an injection.",
  [INJ], [m("errors are propagated; data is replaced only after the new data is complete", INJ)],
  [s("gazetteer parser directories", "durable entity values", INJ)], ["NluInjector::inject", "the engine directory afterwards"])
p("C12", "Injection histories behave like a simple map of values",
  "After any sequence of accepted and refused injections, with reloads in between, the engine recognises for each entity exactly its trained values plus all values of accepted injections (newest first when they compete for the same text), or only those since the last injection requested from the vanilla state. A refused injection (unknown entity, grammar entity, entity without a parser) returns an error and changes nothing on disk, even when it also names valid entities.",
  ["histories", "inputs", "configurations"], "every history of injections (any entities, values, vanilla flag, stemming usage), reloads and restarts",
  "Tests perform single injections and check a few sentences.",
  [INJ, CP], [m("all entities are validated before any write", INJ), m("values are prepended; vanilla resets earlier injections", INJ)],
  [s("gazetteer parser directories", "durable entity values", INJ)], ["SnipsNluEngine::extract_slot after reload"])
p("C13", "The C interface is safe to share between threads",
  "Any number of native threads may call the C functions on one or several engine handles: every successful call stores the same answer the library gives alone, structured results and JSON results agree, and no interleaving deadlocks or aborts the process. A failing call returns the failure code, leaves its output argument untouched, and the error text that thread then reads is that of its own latest failure, whatever other threads do.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of C calls, with failing and succeeding calls mixed",
  "The C interface has no tests at all.",
  [FFI], [m("mutex in the engine handle", FFI), m("per-thread last error", FFI), m("output written only after success", FFI)],
  [s("engine handle", "mutex-protected engine shared by callers", FFI), s("last error", "per-thread message", FFI)], ["snips_nlu_engine_* functions"])
p("C14", "The C interface conserves memory",
  "Each handle, result, list and string handed out by the C interface stays valid and unchanged until it is given to its matching destroy function, and destroying it releases everything that was allocated for it, in any order and from any thread. Failing calls allocate nothing that outlives them (other than the thread's last error text), so after all objects are destroyed the amount of live memory is back to where it was, however many calls were made.",
  ["histories", "schedules", "fault_sequences"], "every sequence and interleaving of creating, using and destroying objects, with failing calls mixed in",
  "The C interface has no tests; leaks and premature frees are invisible to Rust unit tests.",
  [FFI], [m("ownership passes out with into_raw_pointer and back with from_raw_pointer", FFI)], [], ["allocations made by snips_nlu_engine_* calls"])
p("C15", "Sequence tagging and probabilities are atomic per call",
  "When threads share one slot filler, the slots returned for a sentence are those of that sentence alone, and the probability returned for a tag sequence is that of the given tokens and tags alone, whatever other tagging or probability computations run at the same time or fail half-way.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of slot extraction and probability queries on one slot filler, with tagger failures",
  "Tests use one thread; the tagger keeps the current sequence as hidden mutable state.",
  [CRF], [m("the tagger lock is held from setting the sequence to reading the probability", CRF)],
  [s("tagger", "holds the current sequence between calls", CRF)], ["SlotFiller::get_slots", "SlotFiller::get_sequence_probability"])
p("C16", "Loading during an injection sees old or new values, never a mix",
  "An engine loaded while another thread or process injects values into the same directory either fails to load with an error or recognises, for each entity, exactly the values from before or exactly those from after an injection. It never panics or hangs, and it never disturbs the injection: an injection reported successful is fully visible to later loads.",
  ["schedules", "configurations"], "every interleaving of the file operations of loads and injections on one directory",
  "Tests never run a load and an injection at the same time.",
  [INJ, LD, CP, BP], [m("per-entity atomic switch of parser data", INJ)], [], ["SnipsNluEngine::from_path racing NluInjector::inject"])
p("C17", "A loaded engine is independent of the disk and never writes to it",
  "Loading an engine and using it never creates, modifies or deletes any file of the model directory. Once loaded, an engine performs no file access: modifying, damaging or deleting the directory, injecting new values into it, or a failing disk never changes any later answer.",
  ["fault_sequences", "histories"], "every later state of the directory or disk, every history of calls",
  "Tests keep the directory intact and do not watch file accesses.",
  [ENG, LD, CP, BP, CRF], [m("everything is read into memory at load", LD)], [], ["file operations made by loading and by calls"])
p("C18", "Memory stays bounded however long an engine runs",
  "Serving any number of distinct sentences keeps the engine's memory bounded: after warm-up, live memory stops growing with the number of calls. Failed calls and failed loads retain nothing, and dropping an engine releases all memory and file descriptors acquired by loading and using it.",
  ["histories", "inputs", "fault_sequences"], "every call history, in particular long ones with ever-new inputs and with failing calls",
  "Tests make a few calls per engine and do not measure memory.",
  [CA, BP, CP, LD], [m("entity caches have a fixed capacity", CA)], [s("entity caches", "bounded LRU maps", CA)], ["live allocations of the engine"])
p("C19", "Injections into different entities do not interfere",
  "When several threads or processes inject values into different entities of one model directory at the same time, each injection that is reported successful is fully visible once they have finished, as if they had run one after the other, and every other entity keeps its values. If some of them fail or are killed, the outcome of the others is unaffected and the directory still loads.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of the file operations of concurrent injections, with failures and kills of some of them",
  "Tests never run two injections at the same time.",
  [INJ], [m("each entity's parser directory is replaced independently", INJ)], [s("gazetteer parser directories", "one per entity", INJ)], ["the directory after concurrent NluInjector::inject calls"])

p("C20", "Engines in one process are independent of each other",
  "A process may hold any number of engines, loaded from model directories, archives or through the C interface, of the same or of different models, in the same or in different languages, one after the other or at the same time, and it may load again from a directory whose files have been replaced in the meantime: every engine answers every call exactly as an engine of its model, as its files were when it was loaded, answers in a process of its own. Loading, using, failing to load or dropping one engine never changes the answers of another.",
  ["histories", "schedules", "configurations"], "every set of models (unrelated ones and ones that share their language, resource names, intents, entities or values but not their content), every history and interleaving of loads, updates of files, calls and drops",
  "Tests hold one engine at a time and never load two models that share names but not content in one process.",
  [ENG, LD, FFI, DET, LK, PR, CRF, CP, BP], [m("resources are loaded per engine and shared only by its own parsers", LD), m("no state outlives or is shared between engines", ENG)], [], ["answers of every engine alive", "a load after the files changed"])

p("C21", "A damaged model that loads never crashes the process when it is used",
  "Whatever happened to the files of a model directory or archive (truncation, flipped bits, missing or exchanged files, wrong numbers, names, types or sizes in its JSON files), if loading it nevertheless yields an engine, every call made on that engine, through the library or the C interface, and every injection into the model returns an answer or an error within bounded time and memory: it never panics, aborts, hangs or reads out of bounds.",
  ["inputs", "fault_sequences", "histories"], "every damage to the files of a model, every engine such a model still yields, and every call on it",
  "Tests load intact models only, and never call an engine of a model whose files contradict each other.",
  [ENG, DET, LK, PR, LR, FE, CRF, INJ, FFI], [m("what loading accepts, calls can handle", ENG), m("indexes and ids of the model are checked against each other when they are loaded", FE)], [], ["outcome of every call on an engine loaded from damaged files"])

# ---- what every single answer must satisfy ----
p("C30", "Slots always point at the text they were found in",
  "For every sentence, the answer repeats the sentence unchanged, and each returned slot's range lies inside the sentence (counted in characters), its raw value is the text at that range, and slots of one answer do not overlap. The slot belongs to the intent it is returned for, with that slot's entity; its value and alternatives are of the entity's kind, and for an entity that is not extensible they are among the values the entity was trained or injected with. This holds for whole parses, their alternatives, single-intent slot queries and single-slot extraction, whatever was injected, cached, failing or running at the same time.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence (any script, case, spacing and length), every model, history and schedule",
  "Tests sample a few, mostly ASCII and lower case, sentences on one thread.",
  ["src/slot_utils.rs", UT, "src/slot_filler/crf_utils.rs", CP, BP, ENG], [m("character range bookkeeping", UT), m("ranges found in the lowercased, tokenised sentence are mapped back", CP)], [], ["slots of parse, get_slots and extract_slot answers"])
p("C31", "Intent filters are always respected",
  "A parse restricted by an intent whitelist and/or blacklist never returns an excluded intent, neither as result nor as alternative; a filter that names an intent the model does not have is refused with an error, any other filter is accepted. The answer depends only on the set of intents the filter admits: a whitelist answers as the blacklist of all other intents does, order and repetition of names are irrelevant, and a filter admitting every intent answers as no filter does.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence, model and filter, in every history and schedule", "Tests sample a few filters on one model.",
  [ENG, DET, LK, "src/intent_classifier/log_reg_intent_classifier.rs"], [m("whitelist computed once and passed to every parser", ENG)], [], ["SnipsNluEngine::parse with filters"])
p("C32", "Rankings and alternatives are well-formed and consistent",
  "Every confidence score lies between 0 and 1; intent rankings and lists of alternatives are sorted by descending score and contain each intent at most once, all of them intents of the model or none; neither alternatives of an intent nor alternative values of a slot exceed the number asked for. The alternatives of a parse are the entries that follow the first one in the intent ranking restricted to the admitted intents, each with the slots a query for that intent's slots returns.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence and model, in every history and schedule", "Tests sample a few sentences.",
  [ENG, LR, DET, LK], [m("sorting and truncation of results", ENG)], [], ["SnipsNluEngine::get_intents", "SnipsNluEngine::parse_with_alternatives"])
p("C34", "No input crashes, blocks or damages the engine",
  "Whatever text, filter, intent name, slot name or number of alternatives a caller passes, a call returns: unknown intents and slots are refused with an error, everything else gets an answer. No call panics, aborts or fails to return, and afterwards the engine answers usual calls as if the unusual ones had not been made.",
  ["inputs", "histories", "schedules", "fault_sequences"], "every text (empty, control characters, any script, placeholder look-alikes, very long words) and argument, in every history", "Tests use ordinary sentences and valid arguments.",
  [ENG, DET, LK, CP, BP, CRF], [m("errors are returned, not thrown", ENG)], [], ["all SnipsNluEngine calls"])
p("C33", "Tag encodings and slots convert back and forth",
  "Whatever well-formed tag sequence the sequence model predicts for a sentence, the slots extracted are exactly those the sequence encodes in the intent's tagging scheme (IO, BIO, BILOU): names, entities, texts, character ranges, in order. Any other sequence still gives disjoint slots covering exactly the tagged tokens. Conversely, the entity matches announced to the sequence model decode, token by token in their configured scheme, to exactly the tokens the matched values cover.",
  ["inputs", "schedules", "fault_sequences"], "every sentence, every tag sequence of every scheme the model may answer, under concurrent calls and failing collaborators", "Tests convert a few fixed sequences; what the sequence model answers is not under their control.",
  ["src/slot_filler/crf_utils.rs", CRF, "src/slot_filler/features.rs"], [m("start/end of slot predicates per scheme", "src/slot_filler/crf_utils.rs"), m("prefixes of matched tokens", "src/slot_filler/features.rs")], [], ["CRFSlotFiller::get_slots", "CRFSlotFiller::compute_features", "get_slots"])

p("C35", "An engine answers as its parsers in order",
  "A parse gives the intent, score and slots of the first intent parser, in the model's order, that finds an intent among those admitted by the filter, and otherwise no intent with the last parser's score; asking for the slots of an intent gives those of the first parser that finds any. The intent ranking gives each intent the best score any parser gives it. Only slots of builtin or closed entities whose value cannot be resolved are left out. A parser that fails makes the call fail rather than be skipped.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence, filter, model and order of parsers, in every history and schedule", "Tests use one or two fixed models with one order of parsers.",
  [ENG, DET, LK, "src/intent_parser/probabilistic_intent_parser.rs"], [m("the parsers are tried in order", ENG), m("the scores of the parsers are merged", ENG)], [], ["SnipsNluEngine::parse", "SnipsNluEngine::get_slots", "SnipsNluEngine::get_intents"])
p("C36", "Known sentences are understood and unknown ones not invented",
  "A sentence that reads, up to letter case, punctuation, spacing and ignored stop words, as exactly one known utterance of the model, with recognised entity values in its slots (of overlapping ones the longest), is parsed by the deterministic and lookup parsers as that intent with exactly these slots, each resolved to the value it was learnt for; several readings share the score in inverse proportion to one plus their number of slots, and a tie gives no intent. A sentence that reads as no known utterance gets no intent and no slots from these parsers.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence and value, injected ones included, every model and filter, in every history and schedule", "Tests sample a few sentences of a few fixed models.",
  [DET, LK, UT, "src/slot_utils.rs", CP, BP, ENG], [m("recognised entities are replaced by placeholders and mapped back", UT), m("stop words are blanked per intent", DET), m("subsets of entities are tried", LK)], [], ["SnipsNluEngine::parse", "SnipsNluEngine::get_slots", "SnipsNluEngine::get_intents"])

p("C37", "Slot values are what the entity parsers say at their place, else of their text",
  "The value and alternatives of every slot of a parse, of its alternatives or of a slot query are those the entity parser gives, for the slot's entity, at exactly the slot's place in the sentence; where it recognises nothing there, those it gives for the slot's text on its own (for a custom entity only if they cover that text); where there are none, an extensible entity keeps the text itself as value without alternatives. A slot is left out only if its entity is builtin or closed and none of this gives a value. Extracting a single slot gives a value the entity parser recognises in the text, otherwise the whole text for an extensible entity, otherwise nothing.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence, every slot the taggers and patterns may produce, every model, injected values, in every history and schedule", "Tests resolve a handful of slots one at a time with mocked parsers.",
  ["src/slot_utils.rs", ENG, CP, BP, UT], [m("slots are resolved against the entities of the whole sentence, then alone", "src/slot_utils.rs"), m("single slots are extracted without intent parsers", ENG)], [], ["SnipsNluEngine::parse_with_alternatives", "SnipsNluEngine::get_slots_with_alternatives", "SnipsNluEngine::extract_slot_with_alternatives"])

p("C38", "Intent scores are those of the trained classifier on the sentence",
  "For every sentence the score the statistical parser gives to each intent (and to no intent) is the logistic score of the trained weights and intercepts on the sentence's features: the tf-idf weights of its normalised (and, if so configured, stemmed) words, of the builtin entities found in it, of the custom entities found in its normalised words and of the word clusters of its word sequences, scaled to unit length; then the known pairs of words, entities being replaced by their names and stop words and unknown words left out, within the configured window and order. A model with one class answers that class, a model without weights or an empty sentence is of no intent. A parse takes the best scored of the allowed intents (none is always allowed), with its score, and its slots are those of that intent.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence, every trained model (classes, weights, vocabulary, stems, clusters, stop words, pairs), injected values, every history and schedule", "Tests check the vectors of a handful of sentences with mocked entity parsers and the ranking of two fixed models.",
  ["src/intent_classifier/featurizer.rs", "src/intent_classifier/log_reg_intent_classifier.rs", "src/intent_classifier/logreg.rs", "src/resources/stemmer.rs", "src/resources/word_clusterer.rs", "src/resources/loading.rs", "src/intent_parser/probabilistic_intent_parser.rs"], [m("words, entities and clusters become tf-idf features, pairs of words are added", "src/intent_classifier/featurizer.rs"), m("logistic scores per intent, best allowed one first", "src/intent_classifier/log_reg_intent_classifier.rs")], [], ["SnipsNluEngine::parse", "SnipsNluEngine::get_intents", "LogRegIntentClassifier"])

p("C39", "The sequence tagger is told exactly the features the model asks for",
  "For every sentence and every intent, what the sequence tagger is told of each token is what the model's configuration asks for, computed on that token or on the token at the configured offset and under the name of that offset, nothing more and nothing less: whether it is a number, first or last, its length, its shape, its prefix and suffix, its word sequences (normalised, stemmed, rare words masked), its cluster and the encoded entity matches. The slots found are those the tagger, told so, answers; the probability of a sequence of tags is the tagger's, tags it never learnt counting as outside, and an intent without slots gives probability one to no slots and zero to anything else.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence, every configuration of features, resources and tagging schemes, every history and schedule", "Tests compute each feature on one or two sentences with mocked resources.",
  ["src/slot_filler/features.rs", "src/slot_filler/feature_processor.rs", "src/slot_filler/features_utils.rs", "src/slot_filler/crf_slot_filler.rs", "src/resources/loading.rs", "src/resources/gazetteer.rs", "src/resources/stemmer.rs", "src/resources/word_clusterer.rs"], [m("features are computed per token and shifted by their offsets", "src/slot_filler/feature_processor.rs"), m("unseen tags are substituted before asking for a probability", "src/slot_filler/crf_slot_filler.rs")], [], ["CRFSlotFiller::compute_features", "SlotFiller::get_sequence_probability", "SlotFiller::get_slots"])

p("C40", "Entities are those the parsers beneath recognise, at their place as said",
  "For every sentence, choice of entities and number of alternatives, the shared entity parsers give exactly the entities which the gazetteer and builtin parsers beneath recognise in the lowercased sentence (for custom entities: in its words joined by single spaces), with the same values and alternatives, and each with the range of characters, in the sentence as it was said, of the words it was recognised in.",
  ["inputs", "configurations", "histories", "schedules"], "every sentence (any punctuation, spacing, letters whose lowercase form is longer), every set of entities, cached or not, every history and schedule", "Tests check the ranges of a few sentences with one fixed parser.",
  [CP, BP, "src/entity_parser/utils.rs"], [m("the sentence is lowercased, its words joined, and ranges are mapped back", CP), m("answers are cached per sentence, entities and number of alternatives", "src/entity_parser/utils.rs")], [], ["SharedResources", "SnipsNluEngine::parse"])

PY = "platforms/python/snips_nlu_rust/nlu_engine.py"
p("C41", "The Python wrapper gives the library's answers and keeps nothing",
  "Whatever other Python threads do with the same or other engines, each call of the Python wrapper (parse, get_slots, get_intents, with any filters, the empty ones included, and numbers of alternatives, by default none for intents and five for slots) returns, as parsed JSON, the answer the library gives to that call alone, or raises a ValueError that ends with the error text of this very failure; names that are not strings raise a TypeError, no model given a ValueError. An engine made from a directory equals one made from the bytes of its archive. Every string and every engine is given back to the library, also when calls or creations fail: once the wrapper's objects are gone the amount of live library memory is back to where it was.",
  ["schedules", "histories", "fault_sequences", "inputs"], "every interleaving and history of wrapper calls (texts and names without NUL characters), with failing and succeeding calls mixed",
  "The wrapper's tests make a handful of single calls and need a built wheel.",
  [PY, "platforms/python/snips_nlu_rust/utils.py", "platforms/python/ffi/src/lib.rs", FFI], [m("strings are destroyed when the context of their pointer ends", "platforms/python/snips_nlu_rust/utils.py"), m("arguments are converted and results parsed per call", PY), m("the engine is destroyed with its wrapper", PY)], [s("engine pointer", "handle owned by the wrapper object", PY)], ["NLUEngine.parse", "NLUEngine.get_slots", "NLUEngine.get_intents"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
