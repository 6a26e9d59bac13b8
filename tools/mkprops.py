import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
C="src/consumer.rs";G="src/generator.rs";U="src/util.rs";M="src/mapping_list.rs";A="src/array_set.rs";J="src/source_map.rs"
p("C01","Accepting an indexed map does not depend on thread scheduling",
 "Building a consumer from an indexed source map succeeds if its version is 3, no section points to an external url and the section offsets (line, then column) never decrease, and is refused (an error or a panic of that call) if the offsets decrease anywhere, the version is not 3 or a section has a url. The verdict is the same for every order in which worker threads handle the sections, every pool size and every number of threads building maps at the same time.",
 ["schedules","fault_sequences","inputs"],"every interleaving of pool workers and builder threads, every pool size, stalls and spurious wake-ups, every list of section offsets",
 "The tests build one two-section map once on an idle pool; the verdict is computed while sections are processed in parallel, so only particular interleavings (a later section handled first) show a wrong verdict.",
 [C],[("offset ordering check, version and url checks","src/consumer.rs IndexedConsumer::from_source_map_json"),("parallel section construction (rayon par_iter)","src/consumer.rs IndexedConsumer::from_source_map_json")],
 [("last_offset","offset of the previously validated section","src/consumer.rs from_source_map_json")],["create_consumer","IndexedConsumer::new","IndexedConsumer::from_source_map_json","IndexedConsumer::consume"])
p("C02","Sections built in parallel keep document order and their own data",
 "A consumer built from an indexed source map behaves as if its sections had been read one after another in document order: the list of sources is the concatenation of the sections' resolved source names in document order, each source keeps its own content, and each lookup is answered from the right section's mappings. This holds for every scheduling of the worker threads, every pool size, any number of sections and any number of threads building maps concurrently.",
 ["schedules","inputs"],"every interleaving of pool workers and concurrent builder threads, pool sizes 1..8, section counts 0..64",
 "Tests build one two-section map and look only at the enum variant; misplaced or mixed-up sections appear only for particular steal orders or larger section counts.",
 [C],[("order-preserving parallel collect","src/consumer.rs IndexedConsumer::from_source_map_json")],
 [("sections","sections in document order","src/consumer.rs IndexedConsumer")],["IndexedConsumer::get_sources","IndexedConsumer::original_position_for","IndexedConsumer::source_content_for"])
p("C03","A failing call is contained: it ends cleanly and harms nothing else",
 "When a call fails (a malformed or refused map, an out-of-range position, a missing source, a callback that panics in the middle of an iteration, a worker thread that cannot be started), the failure ends that call only, as an error or a panic, within a bounded number of steps: no hang, deadlock or process abort. Afterwards the same object, every other object and every later or concurrent call on any thread still gives correct answers.",
 ["fault_sequences","schedules","histories"],"every placement of callback panics, refused calls, bad sections and system-call faults in a multi-threaded history",
 "Tests contain no failing call at all; containment needs a failure injected in the middle of an operation followed by more work on the same and other threads.",
 [C,U],[("interior borrow of the section list","src/consumer.rs IndexedConsumer"),("lazily initialised process-wide URL helpers","src/util.rs lazy_static blocks"),("shared thread pool","src/consumer.rs par_iter")],
 [],["every public consumer call after a failure"])
p("C04","Threads using their own maps never influence each other",
 "When several threads each use their own consumers and generators at the same time, including the very first uses in the process, every call returns exactly what it would return if its thread ran alone. The same holds for the public URL helpers (join, relative, source URL computation) when they are called concurrently.",
 ["schedules","histories"],"every interleaving of 2..6 threads from process start",
 "Each test runs one object on one thread; process-wide lazily initialised state and the shared pool are only stressed by interleaved first uses.",
 [U,C,G],[("lazy_static URL helpers","src/util.rs ENSURE_DIRECTORY, TRIM_FILENAME, NORMALIZE"),("shared rayon pool","src/consumer.rs from_source_map_json")],
 [],["util::join","util::relative","util::compute_source_url","create_consumer","SourceMapGenerator::as_string"])
p("C05","Original-position lookup is right after any history of calls",
 "On a (non-indexed) map, looking up a generated position (line from 1, column from 0) returns the mapping on that line closest to it - the greatest column at or before it by default, the least column at or after it with the upper-bound bias - with its generated position, resolved source name, original position (line from 1) and name, and returns nothing if that line has no such mapping or the mapping has no original position. A line below 1 or column below 0 is refused with a panic. The answer never depends on which lookups, iterations, span computations or failed calls came before, from whichever threads share the consumer.",
 ["histories","schedules","fault_sequences","inputs"],"every interleaving of operations of several clients sharing a consumer, with failing calls and interrupted iterations in between",
 "No test performs a single position lookup; history dependence (lazy parsing, caches, span computation) needs sequences of calls.",
 [C],[("lazy parse","src/consumer.rs BasicConsumer::parse_mappings / mappings"),("lookup","src/consumer.rs BasicConsumer::original_position_for")],
 [("mappings","lazily parsed mappings","src/consumer.rs BasicConsumer"),("computed_column_spans","whether spans were computed","src/consumer.rs BasicConsumer")],["BasicConsumer::original_position_for"])
p("C06","Generated-position lookup is right after any history of calls",
 "On a (non-indexed) map, looking up a source and original position (line from 1, column from 0) returns, among the mappings of that source ordered by original (line, column), the closest one at or before it by default, or at or after it with the upper-bound bias, with its generated position, resolved source, original position and own name; it returns nothing for an unknown source or if no such mapping exists. A line below 1 or column below 0 for a known source is refused with a panic. The answer never depends on earlier calls, failed calls, or which threads share the consumer.",
 ["histories","schedules","fault_sequences","inputs"],"every interleaving of operations of several clients sharing a consumer, with failing calls and interrupted iterations in between",
 "No test calls it; its answer passes through three caches (source index cache, parsed mappings, per-source sorted buckets) that only a history of calls fills in different orders.",
 [C],[("source index cache","src/consumer.rs BasicConsumer::find_source_index"),("lookup","src/consumer.rs BasicConsumer::generated_position_for")],
 [("source_lookup_cache","memoised source index","src/consumer.rs BasicConsumer")],["BasicConsumer::generated_position_for"])
p("C07","All-generated-positions lookup is complete after any history of calls",
 "On a (non-indexed) map, asking for all generated positions of a source and original line (from 1) without a column returns every mapping of that source on the first line at or after the requested one that has mappings; with a column it returns every mapping on exactly that line at the first column at or after the requested one. Nothing is missing, duplicated or added (returned mappings carry the map's own 0-based numbers and indices), the result is empty for an unknown source, a line below 1 or column below 0 for a known source is refused with a panic, and earlier calls never change the answer.",
 ["histories","schedules","fault_sequences","inputs"],"every interleaving of operations of several clients sharing a consumer, with failing calls and interrupted iterations in between",
 "No test calls it; lazily sorted buckets and caches make the answer a function of the call history.",
 [C],[("lookup","src/consumer.rs BasicConsumer::all_generated_position_for")],[],["BasicConsumer::all_generated_position_for"])
p("C08","Iteration visits every mapping once, in order, even after interruptions",
 "Iterating a (non-indexed) map in generated order visits every mapping of the map exactly once in non-decreasing generated (line, column) order; iterating in original order visits exactly the mappings that have an original position, once each, in non-decreasing (source index, original line, original column) order. If the callback panics part-way, the iteration stops there, and every later iteration or lookup on the same consumer is complete and correct again.",
 ["histories","fault_sequences","schedules","inputs"],"every interruption point of every iteration, in every history of calls by clients sharing the consumer",
 "Only the benchmark iterates, once and without checking; interruption inside the callback is never exercised.",
 [C],[("iteration","src/consumer.rs impl ConsumerTrait for BasicConsumer each_mapping")],[],["ConsumerTrait::each_mapping on BasicConsumer"])
p("C09","Column spans appear after they are requested and change nothing else",
 "After column spans have been requested once on a consumer, every mapping it reports carries as span end the generated column of the next mapping on the same generated line (exclusive), or the open-end marker (none; -1 in single generated-position lookups) when it is the last one on its line - for an indexed map, the start column of the next section instead if that section starts on the same line. Requesting spans again, before, between or after any other calls, changes no other part of any answer; before the request a span is either absent or already that value.",
 ["histories","schedules","fault_sequences"],"every position of the span request(s) in every interleaved history of lookups and iterations",
 "No test requests spans; the value depends on the order of span computation, bucket building and lookups.",
 [C],[("span computation","src/consumer.rs BasicConsumer::compute_column_spans, IndexedConsumer::computed_column_spans")],
 [("computed_column_spans","spans requested","src/consumer.rs BasicConsumer")],["original_position_for","generated_position_for","all_generated_position_for","each_mapping"])
p("C10","A source name always resolves to the same source and its content",
 "The sources a (non-indexed) map reports are its entries joined onto sourceRoot (if non-empty) and then onto the directory of the map's URL (if given). Asking for a source's content with the name as written in the map, with the name relative to the map's URL, or (when the map has no URL or an absolute one) with the reported name finds that source (a source the name denotes relative to the map's URL wins over one it denotes relative to sourceRoot, the first of duplicate sources wins) and returns its own content or nothing when it has none; an unknown name is refused with a panic or, if asked, gives nothing; all-contents-present is reported exactly if every source has content. The resolution is the same whichever names were asked before, found or not, and however the consumer was constructed.",
 ["histories","schedules","inputs","configurations"],"every history of hits and misses on the memoised source lookup, by several clients, for every combination of sourceRoot and map URL",
 "Two fixed source lists are compared in tests, with no map URL, no content lookup and no repeated lookups.",
 [C,U],[("memoised source lookup","src/consumer.rs BasicConsumer::find_source_index"),("source URL computation","src/util.rs compute_source_url")],
 [("source_lookup_cache","memoised source index","src/consumer.rs BasicConsumer"),("absolute_sources","resolved names","src/consumer.rs BasicConsumer")],["get_sources","source_content_for","has_contents_of_all_sources"])
p("C11","Indexed original-position lookup consults the right section",
 "On an indexed map, looking up a generated position (line from 1, column from 0) is answered by the last section whose offset is at or before it (any of them if several start there; offsets are 0-based; the column offset applies to the section's first line only), as that section's own map answers for the position relative to its offset, reported in the coordinates of the whole generated file; it returns nothing before the first section. This holds after any history of calls on the consumer and for every scheduling of its construction.",
 ["histories","schedules","fault_sequences","inputs"],"every history of calls on consumers built under every worker interleaving; positions before, on and after every section boundary",
 "No test looks anything up in an indexed map.",
 [C,"src/binary_search.rs"],[("section search","src/consumer.rs IndexedConsumer::original_position_for"),("search","src/binary_search.rs search")],[("sections","sections with offsets","src/consumer.rs IndexedConsumer")],["IndexedConsumer::original_position_for"])
p("C12","Indexed generated-position lookups are shifted by the right section",
 "On an indexed map, looking up the generated position, or all generated positions, of a source position is answered by the first section that lists the source, as that section's own map answers, shifted by that section's offset: the line offset always, the column offset for mappings on the section's first line only. It returns nothing for a source no section lists. The answer does not depend on earlier calls or on the scheduling of the construction.",
 ["histories","schedules","fault_sequences","inputs"],"every history of calls on consumers built under every worker interleaving",
 "No test calls it.",
 [C],[("section choice and shift","src/consumer.rs IndexedConsumer::generated_position_for, all_generated_position_for")],[],["IndexedConsumer::generated_position_for","IndexedConsumer::all_generated_position_for"])
p("C13","Indexed iteration and totals cover every section",
 "Iterating an indexed map visits the mappings of all sections, section by section in document order and each section in the requested order, each exactly once and shifted to the coordinates of the whole generated file (0-based lines and columns, column offset on the section's first line only). Content lookups try the sections in document order and find content held by any section (nothing or a refusal if none holds it), and all-contents-present holds exactly if it holds for every section. A callback that panics part-way leaves the consumer fully usable.",
 ["histories","fault_sequences","schedules","inputs"],"every interruption point of every iteration, every history of calls on consumers built under every worker interleaving",
 "No test iterates an indexed map or asks it for content.",
 [C],[("iteration over sections","src/consumer.rs impl ConsumerTrait for IndexedConsumer each_mapping"),("content lookup","src/consumer.rs IndexedConsumer::source_content_for")],[("sections","sections with offsets, behind interior mutability","src/consumer.rs IndexedConsumer")],["ConsumerTrait::each_mapping on IndexedConsumer","IndexedConsumer::source_content_for","IndexedConsumer::has_contents_of_all_sources"])
p("C14","A generator's output is exactly the set of mappings added so far",
 "At any moment, the map text produced by a generator encodes, per generated line and in non-decreasing column order, exactly the set of distinct valid mappings added so far (generated position, source, original position, name), none twice in a row, in whatever order they were added and by whichever threads. Producing the text any number of times in between changes neither the generator nor later output, and no mapping is lost or altered by duplicates or out-of-order additions.",
 ["histories","schedules","inputs"],"every order and interleaving of additions and intermediate serialisations by several clients sharing a generator",
 "One test adds 13 mappings in order and serialises once; unsorted additions, additions after a serialisation and large deltas are untested.",
 [G,M,"src/base64_vlq.rs",U],[("lazy sorting","src/mapping_list.rs MappingList::add, to_array"),("delta encoding","src/generator.rs SourceMapGenerator::serialize_mappings"),("VLQ","src/base64_vlq.rs base64vlq_encode")],
 [("sorted/last","whether the list is known sorted","src/mapping_list.rs MappingList")],["SourceMapGenerator::add_mapping","SourceMapGenerator::as_string"])
p("C15","A generator's source, name and content tables stay exact",
 "The sources and names a generator writes are the distinct ones used by the mappings added so far, in order of first use, together with the file and sourceRoot it was created with and version 3. If any content is currently set, the content table has one entry per source, in the same order: the content most recently set for that source (named as in the mappings or, for an absolute sourceRoot, with or without it in front) and not since removed, else null. This holds after any interleaving of additions, content changes and serialisations.",
 ["histories","schedules","inputs"],"every history of additions, content settings/removals and serialisations by several clients",
 "Tests add mappings in one order and never set a content.",
 [G,A,J],[("first-use interning","src/generator.rs add_mapping, src/array_set.rs"),("contents","src/generator.rs set_source_content, generate_sources_contents")],
 [("source_contents","content by source","src/generator.rs SourceMapGenerator")],["SourceMapGenerator::as_string"])
p("C16","What a generator writes, a consumer reads back",
 "A consumer created from the text (or directly from the generator) that a generator wrote answers every lookup, iteration and content query with exactly the mappings and contents given to the generator up to the moment of writing, even if the generator keeps changing, or other threads write and read other maps, at the same time. A single map used as a section of an indexed map answers the same, shifted by its offset.",
 ["histories","schedules","inputs"],"every pipeline of generators, stored texts and consumers handed between threads",
 "No test connects generator and consumer.",
 [G,C,"src/base64_vlq.rs"],[("encoding","src/generator.rs serialize_mappings"),("hand-over","src/consumer.rs BasicConsumer::from_source_map")],[],["BasicConsumer::from_source_map","create_consumer"])
p("C17","A damaged map text yields its own answers or a clean failure",
 "When the stored text of a map is cut short, overwritten, duplicated, or has bits flipped before it is read, creating a consumer from it reports an error if it is not a JSON document of the right shape (in particular, if it is a proper prefix of a map, or a basic map or a section's map lacks its sources or mappings), and otherwise every answer is the one its actual bytes encode or a refusal of that call (a panic; an iteration may visit nothing) where its mappings text is not valid or refers to a missing source or name. Never does a damaged text cause a hang, a process abort, unbounded memory use, or a wrong answer for an undamaged map.",
 ["fault_sequences","crash_points","inputs"],"every truncation point, bit flip, lost or duplicated block of every stored map, under concurrent use of undamaged maps",
 "No test reads a damaged map.",
 [C,J],[("document checks","src/consumer.rs create_consumer"),("mappings checks","src/consumer.rs BasicConsumer::parse_mappings")],[],["create_consumer","all consumer calls"])
p("C18","The same calls always produce the same bytes and the same answers",
 "Repeating the same calls on a fresh object gives byte-identical map text and the same answers, whatever the process's random hash seeds, thread interleaving, pool size, number of earlier objects or time of day.",
 ["schedules","configurations","histories"],"every assignment of hash seeds, pool sizes, clocks and interleavings",
 "A test process sees one random hash seed per run and compares one text.",
 [G,A,C],[("insertion-ordered tables over hash maps","src/array_set.rs ArraySet"),("hash map of contents","src/generator.rs source_contents")],[],["SourceMapGenerator::as_string","consumer queries"])
p("C19","Shared string sets and mapping lists keep every entry under any history",
 "A string set reports for every string added the index of its first addition, and for every index the string stored there, in order of addition (repeats are stored again only if duplicates are allowed); its size is the number of distinct strings. A mapping list hands out all mappings ever added, and in non-decreasing generated-position order when asked for its array. Both hold after any interleaving of additions and reads by several threads sharing the object, with reads changing nothing.",
 ["histories","schedules","inputs"],"every interleaved history of additions and reads by several clients, with duplicates on and off",
 "Doc tests add one or two strings on one thread; the mapping list is only tested through one in-order generator run.",
 [A,M],[("index map","src/array_set.rs ArraySet::add"),("lazy sorting","src/mapping_list.rs MappingList::add/to_array")],[("array/set","entries and first index","src/array_set.rs ArraySet")],["ArraySet::*","MappingList::*"])
# not applicable
p("N01","VLQ text of every integer decodes to that integer",
 "Encoding any 32-bit integer as base64 VLQ gives a non-empty text of base64 digits that decodes to the same integer.",
 ["inputs"],"every i32","Tests list -255..255.",["src/base64_vlq.rs","src/base64.rs"],[("encoder","src/base64_vlq.rs base64vlq_encode")],(),["base64vlq_encode"])
p("N02","Binary search returns the first nearest element for every sorted slice",
 "For every slice sorted by the given comparison, every needle and bias, the search returns the smallest index of an equal element, else of the nearest element on the chosen side, else -1.",
 ["inputs"],"every sorted slice, needle and bias","Seven fixed cases.",["src/binary_search.rs"],[("search","src/binary_search.rs search")],(),["binary_search::search"])
p("N03","URL join, relative and normalisation follow their algebra for every URL",
 "For all URLs, joining a relative result back onto its root gives the normalised target, joining an absolute path ignores the root, and normalisation is idempotent.",
 ["inputs"],"every pair of URLs","Only reached indirectly by two source lists.",[U],[("URL helpers","src/util.rs join, relative")],(),["util::join","util::relative"])
p("N04","Mapping comparison is a total order consistent with equality",
 "Comparing mappings by generated position and then by content is antisymmetric and transitive on valid mappings and gives 0 only for equal ones.",
 ["inputs"],"every triple of valid mappings","Untested.",[U],[("comparison","src/util.rs compare_by_generated_pos_inflated")],(),["util::compare_by_generated_pos_inflated"])
p("N05","The consumer kind accessors agree with the map's kind",
 "A map with sections gives an indexed consumer and any other map a basic one, and each accessor returns the consumer if and only if it is of that kind.",
 ["inputs"],"every map","Two maps, one accessor.",[C],[("accessors","src/consumer.rs impl Consumer")],(),["Consumer::as_*","Consumer::try_as_*"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s); assert x["statement"].count(". ")<=2,(x["id"])
print(len(P))
