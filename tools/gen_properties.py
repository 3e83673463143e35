#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
I=["inputs"]; H=["inputs","histories"]

# ---------------------------------------------------------------- encoder / generator
p("C01","Base64-VLQ encoding is lossless for every 32-bit number",
  "For every signed 32-bit integer the VLQ text produced uses only the Base64 alphabet, is the shortest text the source-map v3 VLQ rules allow, and decodes under those rules to exactly that integer; so any concatenation of encoded numbers decodes to the same sequence. A single Base64 digit exists exactly for 0..=63, in the standard order, and every other number is refused.",
  I,"all i32 values (boundaries, powers of two, random; exhaustive over the interval structure in the thorough tier) and all sequences of them",
  "The tests check the 511 values in -255..=255 and three digits; nothing near the 5-bit group boundaries above one continuation digit, and nothing above 2^30.",
  ["src/base64_vlq.rs","src/base64.rs"],[("to_vlq_signed / base64vlq_encode","src/base64_vlq.rs"),("encode","src/base64.rs")],["base64_vlq::base64vlq_encode","base64::encode"])
p("C02","A generated map encodes exactly the mappings that were added",
  "For every sequence of valid mappings added to a generator, in any order and with any repetition, decoding the `mappings` text of the produced document with the source-map v3 rules yields exactly the set of added mappings: same generated position, original position, source and name, none lost, none invented. The decoded mappings are in generated-position order, no two neighbours are identical, and none occurs more often than it was added.",
  H,"all finite sequences of valid mappings (sourceless, with source, with source and name), in any insertion order, with duplicates, ties and gaps",
  "One hand-written sequence of 13 in-order mappings is compared with one expected string; out-of-order adds, duplicates, ties, sourceless segments, negative deltas of every field and empty lines are never exercised.",
  ["src/generator.rs","src/mapping_list.rs","src/base64_vlq.rs","src/util.rs"],
  [("serialize_mappings: delta state, line separators, duplicate suppression","src/generator.rs"),("MappingList::add/to_array: lazy sort","src/mapping_list.rs"),("compare_by_generated_pos_inflated","src/util.rs")],["SourceMapGenerator::as_string"],
  [{"name":"previous_*","meaning":"running delta state of the encoder","where":"src/generator.rs"}])
p("C03","A generated document carries the right v3 header and name tables",
  "Every document a generator produces is a JSON object with version 3, the given file and source root verbatim (and no such member when none was given), and `sources` and `names` listing each distinct source and name of the added mappings exactly once in order of first use. Text of any content in these strings survives unchanged.",
  I,"all file / source-root options, all sequences of mappings, all Unicode strings as file, source and name",
  "Two tests compare one fixed header; uniqueness, first-use order, absent members and non-ASCII or JSON-special text are not covered.",
  ["src/generator.rs","src/source_map.rs","src/array_set.rs"],[("as_json","src/generator.rs"),("serde attributes","src/source_map.rs"),("ArraySet","src/array_set.rs")],["SourceMapGenerator::as_string"])
p("C04","Generated source contents stay attached to their own source",
  "After any sequence of setting and removing source contents, the document's `sourcesContent` has one entry per entry of `sources`, holding the content last set for that very source, or null when none is set or it was removed; when no content is set at all the member is absent. This holds with and without a source root, however the source name is spelled relative to it.",
  H,"all sequences of set/remove content calls interleaved with added mappings, over sources with and without content, with and without a source root",
  "No test sets source content.",
  ["src/generator.rs","src/source_map.rs","src/util.rs"],[("set_source_content / generate_sources_contents","src/generator.rs"),("relative","src/util.rs")],["SourceMapGenerator::as_string"],
  [{"name":"source_contents","meaning":"content by root-relative source name","where":"src/generator.rs"}])
p("C05","Serialising a generator is repeatable and does not disturb it",
  "Producing the document is a pure observation: asking twice gives identical text, and asking at any points while mappings and contents are still being added leaves every later document equivalent to the one obtained without the earlier requests. Adding the same mappings in a different order yields the same set of decoded mappings.",
  H,"all interleavings of add / set-content / serialise calls and all permutations of a mapping sequence",
  "Each test serialises one generator once, at the end.",
  ["src/generator.rs","src/mapping_list.rs"],[("lazy sort in to_array with the sorted flag","src/mapping_list.rs"),("as_json","src/generator.rs")],["SourceMapGenerator::as_string"],
  [{"name":"sorted / last","meaning":"whether the list is known to be sorted","where":"src/mapping_list.rs"}])
p("C06","Ill-formed mappings are refused when validation is on",
  "A generator created with validation enabled refuses, at the moment it is added, every mapping that is not one of the three valid shapes (generated position only; plus original position and source; plus name) with generated and original lines at least 1 and columns at least 0, accepts every mapping that is, and is left unchanged by a refusal. With validation skipped nothing is refused at that moment.",
  H,"all combinations of present/absent original, source and name with in-range and out-of-range positions, at any point in a sequence of adds",
  "No test adds an ill-formed mapping.",
  ["src/generator.rs"],[("validate_mapping","src/generator.rs"),("skip_validation","src/generator.rs")],["SourceMapGenerator::add_mapping"])
p("C07","What a generator writes, a consumer reads back",
  "Opening the document of any generator (directly from the generator or through its text) gives a consumer that enumerates exactly the added mappings, resolves each added generated position to an original position, source and name that was added for that generated position, and reports the content that was set for each source.",
  H,"all sequences of valid mappings and contents, with and without source root",
  "No test connects a generator to a consumer.",
  ["src/generator.rs","src/consumer.rs"],[("from_source_map","src/consumer.rs"),("as_json","src/generator.rs"),("original_position_for","src/consumer.rs")],["BasicConsumer::from_source_map","BasicConsumer::each_mapping","BasicConsumer::original_position_for"])

# ---------------------------------------------------------------- basic consumer
p("C08","Generated-to-original lookup returns the nearest mapping on that line",
  "For every well-formed map and every generated position (line from 1, column from 0), the lookup finds the mapping at that position or else the nearest one before it on the same generated line (after it, with least-upper-bound bias), and reports that mapping's resolved source, 1-based original line, column, name and generated position. It reports nothing when the line has no mapping on that side or the found mapping has no original position.",
  I,"all well-formed documents (segments of 1, 4 and 5 fields, unsorted within a line, empty lines, ties) and all positions and both biases",
  "No test performs a position lookup.",
  ["src/consumer.rs"],[("BasicConsumer::original_position_for","src/consumer.rs"),("source-map-mappings original_location_for","dependency")],["BasicConsumer::original_position_for"],
  [{"name":"mappings","meaning":"lazily parsed mappings","where":"src/consumer.rs"}])
p("C09","Original-to-generated lookup returns the nearest mapping of that source",
  "For every well-formed map, known source and original position (line from 1, column from 0), the lookup finds a mapping of that source at that original position or else the nearest one before it (after it, with least-upper-bound bias) in original line/column order, and reports its 1-based generated line and column, resolved source, 1-based original position and name. It reports nothing for an unknown source or when the source has no mapping on that side; it never reports a mapping of another source.",
  I,"all well-formed documents, every listed source, all positions and both biases",
  "No test performs a reverse lookup.",
  ["src/consumer.rs"],[("BasicConsumer::generated_position_for","src/consumer.rs"),("find_source_index","src/consumer.rs")],["BasicConsumer::generated_position_for"])
p("C10","The all-generated-positions lookup returns exactly the matching mappings",
  "For a known source, a 1-based original line and a column, it returns exactly the mappings of that source on that line whose original column is the smallest one not below the given column; without a column, exactly the mappings on the nearest line, not before the given one, that has any. The result is empty when there is none or the source is unknown; returned records keep the zero-based positions of the map text.",
  I,"all well-formed documents, every source, all lines, all columns and no column",
  "No test calls it.",
  ["src/consumer.rs"],[("BasicConsumer::all_generated_position_for","src/consumer.rs")],["BasicConsumer::all_generated_position_for"])
p("C11","Enumerating a map visits every mapping once in the requested order",
  "Enumerating a consumer in generated order visits exactly the mappings of the document, each once, ordered by generated line and column; enumerating in original order visits exactly those that have an original position, ordered by source, original line and column. Each visited record carries the decoded positions, source and name numbers unchanged.",
  I,"all well-formed documents including segments unsorted within a line, repeated segments, empty lines, and the bundled real-world map and its mutations",
  "No test enumerates a map; the benchmark binary does but checks nothing.",
  ["src/consumer.rs","bench/main.rs"],[("BasicConsumer::each_mapping","src/consumer.rs")],["ConsumerTrait::each_mapping"])
p("C12","Column spans end where the next mapping on the line begins",
  "After column spans are computed, every mapping reported by enumeration or by either lookup direction has as its span end the generated column of the mapping that follows it on the same generated line, and the last mapping of a line is reported as unbounded (no end in records and forward lookups, -1 in reverse lookups). Computing spans again, or before or after other queries, changes nothing else.",
  H,"all well-formed documents and all interleavings of span computation with other queries",
  "No test computes column spans.",
  ["src/consumer.rs"],[("compute_column_spans","src/consumer.rs")],["BasicConsumer::compute_column_spans","each_mapping","original_position_for","generated_position_for"],
  [{"name":"computed_column_spans","meaning":"whether spans were computed","where":"src/consumer.rs"}])
p("C13","Answers of a consumer do not depend on earlier queries",
  "For any sequence of lookups, enumerations, content requests and span computations on one consumer (basic or indexed), each answer equals the answer a freshly opened consumer gives to the same request, span ends aside, and the exposed document is never modified.",
  H,"all sequences of public calls on one consumer, including failed lookups of unknown sources and alternative spellings of the same source",
  "Every test makes at most one kind of call on a fresh consumer.",
  ["src/consumer.rs"],[("source_lookup_cache, lazily parsed mappings, computed_column_spans","src/consumer.rs")],["all BasicConsumer and IndexedConsumer query methods"],
  [{"name":"source_lookup_cache","meaning":"memoised source name to index","where":"src/consumer.rs"},{"name":"mappings","meaning":"lazily parsed and lazily sorted mappings","where":"src/consumer.rs"}])
p("C14","Forward and reverse lookups agree with each other and with shifts of the map",
  "For every mapping with an original position, the reverse all-positions lookup of its original position contains its generated position, the forward lookup of its generated position yields the original position of a mapping there, and mapping forward then back from any answered position stays inside the same original position. Prefixing the mappings text with n empty lines moves every answer down by exactly n generated lines and changes nothing else.",
  I,"all well-formed documents and all of their mappings and query positions",
  "No test relates two lookups.",
  ["src/consumer.rs"],[("original_position_for / generated_position_for / all_generated_position_for","src/consumer.rs")],["BasicConsumer lookups"])

# ---------------------------------------------------------------- sources
p("C15","Reported sources are the document's sources resolved against root and map URL",
  "For every document, the reported list of sources has one entry per entry of the document, in order, each being that entry's normalised URL reference resolved under the source root (a leading slash of the entry is taken relative to a non-empty root) and then under the directory of the map's URL when one is given; query and fragment parts are kept. Empty source roots behave like absent ones.",
  ["inputs","configurations"],"all combinations of source (relative, dot-segmented, path-absolute, scheme-relative, absolute, empty, one-character, with query/fragment), source root and map URL of each kind",
  "Two sources under one path-absolute root, no map URL, no dot segments are tested.",
  ["src/util.rs","src/consumer.rs"],[("compute_source_url, join, NORMALIZE, TRIM_FILENAME, ENSURE_DIRECTORY, build_safe_base","src/util.rs")],["get_sources","util::compute_source_url"])
p("C16","A source can be looked up by any of its names, and only by its names",
  "Every source that a consumer opened with an absolute map URL or none reports is accepted back by every lookup and denotes the first entry with that resolved name; any other spelling denotes the entry whose resolved name equals the spelling resolved against the map URL, else against source root and map URL. Spellings that resolve to no listed source denote nothing.",
  ["inputs","configurations"],"all documents, all spellings (resolved name, document spelling, dot-segment variants, unknown names), with and without source root and map URL, for documents with repeated sources",
  "No test looks a source up by name.",
  ["src/consumer.rs","src/util.rs"],[("find_source_index","src/consumer.rs"),("compute_source_url","src/util.rs")],["generated_position_for","all_generated_position_for","source_content_for"])
p("C17","Source contents are returned for the right source",
  "For every document, asking for a known source's content returns the document's content entry of exactly that source, or nothing if the entry is null or missing; asking for an unknown source panics by default and returns nothing when told not to panic; a document without contents always yields nothing. The map claims to have all contents exactly when every source has a non-null entry.",
  I,"all documents with full, partial (null or short) or absent contents; all spellings of sources; both missing-source modes",
  "No test reads source contents.",
  ["src/consumer.rs","src/source_map.rs"],[("source_content_for / has_contents_of_all_sources","src/consumer.rs"),("sources_content","src/source_map.rs")],["BasicConsumer::source_content_for","BasicConsumer::has_contents_of_all_sources"])
p("C18","URL joining and relativising are correct and inverse to each other",
  "Joining a root and a path gives the path resolved inside the root taken as a directory, normalised, with query and fragment kept; relativising a target (other than the root or a directory above it spelled without a trailing slash) against a root gives a reference that joined back onto the root gives the normalised target, or the normalised target itself when the two are of different kinds or hosts. Normalisation is idempotent, and none of them fails on valid references of any length.",
  I,"all pairs of valid URL references of the four kinds, including empty and one-character ones, dot segments, queries and fragments",
  "The utility functions have no tests.",
  ["src/util.rs"],[("join / relative / compute_relative_url / replace_if_possible","src/util.rs")],["util::join","util::relative","util::compute_source_url"])

# ---------------------------------------------------------------- indexed consumer
p("C19","Forward lookup in a sectioned map uses the section containing the position",
  "For every valid sectioned map and generated position, the lookup answers as the section with the greatest offset not after the position would for the position relative to that section's offset, with the reported generated position translated back to whole-file coordinates; a position before the first section, or without a mapping in its section on that line, yields nothing. A section starts at its offset inclusively.",
  I,"all ordered lists of sections with distinct offsets (including several per line) and all positions and both biases",
  "The only sectioned-map test checks that such a map is recognised.",
  ["src/consumer.rs","src/binary_search.rs"],[("IndexedConsumer::original_position_for","src/consumer.rs"),("search","src/binary_search.rs")],["IndexedConsumer::original_position_for"],
  [{"name":"sections","meaning":"offset and consumer per section","where":"src/consumer.rs"}])
p("C20","Reverse lookups in a sectioned map answer in whole-file coordinates",
  "For every valid sectioned map, known source and original position, the reverse lookups answer as the first section that lists the source would, with every generated position translated by that section's offset (lines always, columns only on the section's first line); an unknown source yields nothing.",
  I,"all valid sectioned maps, every source of every section, all positions, both biases, with and without a column",
  "No test performs a reverse lookup.",
  ["src/consumer.rs"],[("IndexedConsumer::generated_position_for / all_generated_position_for / find_source_index","src/consumer.rs")],["IndexedConsumer::generated_position_for","IndexedConsumer::all_generated_position_for"])
p("C21","Enumerating a sectioned map visits all sections' mappings, translated",
  "Enumerating a sectioned map visits, section by section, exactly what enumerating each section in the requested order visits, with generated positions (and span ends, once computed) translated by the section's offset: lines always, columns only on the section's first line. Once computed, an unbounded last span on the line where the next section begins ends at that beginning. A sectioned map with one section at offset zero behaves exactly like its section opened on its own.",
  I,"all valid sectioned maps, both orders",
  "No test enumerates a sectioned map.",
  ["src/consumer.rs"],[("IndexedConsumer::each_mapping / computed_column_spans","src/consumer.rs")],["IndexedConsumer::each_mapping"])
p("C22","Accepting a sectioned document depends only on the document",
  "Opening a sectioned document succeeds for every list of sections whose offsets are in non-decreasing order, on every attempt and under every thread schedule, keeping the sections in document order; it is refused on every attempt when offsets decrease anywhere, when a section refers to a URL, or when the version is not 3.",
  ["inputs","schedules"],"all lists of sections (1 to several hundred), every position of a single order violation, repeated openings under a multi-threaded pool",
  "One two-section map is opened; with sections processed in parallel the outcome of larger ones depends on scheduling.",
  ["src/consumer.rs"],[("IndexedConsumer::from_source_map_json: parallel construction and ordering check","src/consumer.rs")],["create_consumer","IndexedConsumer::new"],
  [{"name":"last_offset","meaning":"offset of the previous section","where":"src/consumer.rs"}])
p("C23","A sectioned map reports the sources and contents of all its sections",
  "A sectioned map lists the resolved sources of its sections in section order, returns for a source the content held by the first section that has one for it wherever that section stands, panics or returns nothing for a source without content according to the caller's choice, and claims to have all contents exactly when every section does.",
  I,"all valid sectioned maps with differing source roots, map URLs and full, partial or absent contents",
  "No test reads sources or contents of a sectioned map.",
  ["src/consumer.rs"],[("IndexedConsumer::get_sources / source_content_for / has_contents_of_all_sources","src/consumer.rs")],["IndexedConsumer::get_sources","IndexedConsumer::source_content_for"])

# ---------------------------------------------------------------- documents / rejection
p("C24","Opening classifies every text: accepted as the right kind, or refused",
  "Opening any text whatsoever terminates: text that is not JSON of the document's shape (a member missing where required, mistyped or out of range) gives an error value, not a crash. A version-3 document with sections opens as a sectioned map, one with sources as a plain map, and one with another version or with neither is refused, by an error or a panic. Unknown members are ignored and null optional members behave as absent.",
  I,"arbitrary byte strings, arbitrary JSON, and structurally mutated source-map documents",
  "The tests open two valid documents.",
  ["src/consumer.rs","src/source_map.rs"],[("create_consumer","src/consumer.rs"),("serde derive","src/source_map.rs")],["consumer::create_consumer"])
p("C25","A corrupt mappings text never produces answers",
  "When the mappings text of a document contains a character outside the format, a truncated number or segment, or drives a position, source or name number negative or beyond 32 bits, no enumeration or lookup delivers any mapping from it, not even from the part before the damage, on the first or any later request.",
  H,"all single and multiple corruptions at any place of any mappings text, followed by any sequence of queries",
  "No test opens a corrupt map.",
  ["src/consumer.rs"],[("parse_mappings and its callers","src/consumer.rs")],["each_mapping","original_position_for","generated_position_for","all_generated_position_for"])
p("C26","Out-of-range query positions are refused, in-range ones never crash",
  "Every lookup in a well-formed map refuses (panics on) a line below 1 or a column below 0, reverse lookups for a known source, except that a forward lookup in a sectioned map may find nothing instead; and all of them answer without crashing for every line from 1 and column from 0 up to the largest 32-bit value, on empty maps as on full ones. An unknown source yields an empty answer.",
  I,"all i32 lines and columns, all well-formed documents",
  "No test queries a position.",
  ["src/consumer.rs"],[("argument guards of the lookups","src/consumer.rs")],["original_position_for","generated_position_for","all_generated_position_for"])

# ---------------------------------------------------------------- building blocks
p("C27","Binary search returns the first nearest element under the bias",
  "For every ascending list and needle, the search returns the smallest index of the elements equal to the needle; if there is none, the smallest index of those equal to the greatest smaller element (least greater element with upper-bound bias), or -1 if no such element exists; the default bias is lower-bound.",
  I,"all ascending lists (empty, with repetitions) and all needles and biases",
  "Seven fixed lookups in two fixed lists.",
  ["src/binary_search.rs"],[("recursive_search / search","src/binary_search.rs")],["binary_search::search"])
p("C28","The string set keeps insertion order and first indices",
  "After any sequence of insertions, with or without allowing duplicates, the string set's list is the inserted strings in order (repetitions kept only where duplicates were allowed), its size counts distinct strings, membership holds exactly for inserted strings, the index of a string is that of its first occurrence, and positional access agrees with the list and yields nothing outside it.",
  ["histories"],"all sequences of insertions with either duplicate mode over all Unicode strings",
  "Doc-tests insert one or two strings.",
  ["src/array_set.rs"],[("ArraySet","src/array_set.rs")],["array_set::ArraySet"],
  [{"name":"array / set","meaning":"ordered list and first-index table","where":"src/array_set.rs"}])
p("C29","The mapping list yields exactly its mappings in generated order",
  "After any interleaving of additions and reads, the mapping list's sorted view is a permutation of the added mappings with all their fields intact, in ascending generated line and column, and its unsorted traversal visits each held mapping once with consecutive indices. Mappings added out of order never make later reads unsorted.",
  ["histories"],"all interleavings of add, sorted read and traversal over arbitrary mappings",
  "The list is only exercised through one in-order generator test.",
  ["src/mapping_list.rs","src/util.rs"],[("MappingList::add / to_array","src/mapping_list.rs"),("compare_by_generated_pos_inflated","src/util.rs")],["mapping_list::MappingList"],
  [{"name":"sorted / last","meaning":"sortedness flag and last in-order mapping","where":"src/mapping_list.rs"}])
p("C30","Mapping and string comparison are consistent total orders",
  "The mapping comparison orders valid mappings by generated line, generated column, source, original line, original column and name, with absent strings after present ones; it is antisymmetric, transitive, zero exactly for mappings equal in all those fields, and never depends on anything else. The string comparison it uses is likewise a total order agreeing with code-point order.",
  I,"all triples of valid mappings and of optional strings",
  "Neither comparison has a test.",
  ["src/util.rs"],[("compare_by_generated_pos_inflated / strcmp","src/util.rs")],["util::compare_by_generated_pos_inflated","util::strcmp"])
p("C31","Documents survive a parse/serialise round trip",
  "Parsing a source-map document and writing it out again preserves version, file, source root, sources, names, mappings, contents (including null entries) and all sections with their offsets and nested maps, under the member names of the v3 format; absent optional members are not invented except as null, and a second round trip is the identity on text.",
  I,"all documents of the format, plain and sectioned, nested, with arbitrary strings",
  "Only a generator's header is compared with expected text.",
  ["src/source_map.rs"],[("serde attributes of SourceMapJson / Section / Position","src/source_map.rs")],["source_map::SourceMapJson (Serialize, Deserialize)"])
p("C32","Every way of opening a document gives the same consumer",
  "Opening the same text through the general entry point, the direct constructors, a parsed document or the scoped-use entry point, with the same map URL, gives consumers that report the same sources and give the same answer to every request, and the typed accessors of the opened consumer agree with its kind.",
  ["inputs","configurations"],"all valid documents, with and without a map URL, and all requests",
  "Tests use one entry point, without a map URL.",
  ["src/consumer.rs"],[("create_consumer, BasicConsumer::new, from_source_map_json, consume; IndexedConsumer likewise; Consumer::as_*/try_as_*","src/consumer.rs")],["consumer constructors"])
# ---------------------------------------------------------------- the parts together
p("C33","Making a map again from what a consumer reports preserves it",
  "Adding every mapping that enumerating a well-formed plain map visits, with the reported source and the name its numbers stand for, to a fresh generator without a source root gives a document that, opened, has the same set of mappings with the same sources and names; making it again from that changes the text no further when no two mappings share a generated position. Adding the answers that a sectioned map's forward lookup gives at its mappings' positions likewise gives one plain map that answers the same at each of them.",
  I,"all well-formed plain and sectioned maps, all roots and map URLs",
  "No test feeds a consumer's answers back to a generator.",
  ["src/consumer.rs","src/generator.rs"],[("each_mapping / get_sources / original_position_for","src/consumer.rs"),("serialize_mappings / as_string","src/generator.rs")],["ConsumerTrait::each_mapping","SourceMapGenerator::as_string"])
p("C34","Consumers and generators do not influence each other",
  "Any number of consumers and generators, of equal, similar or different documents, can be alive at once and used in any interleaving on one thread or concurrently on several; each gives exactly the answers and documents it would give if it were the only one.",
  ["histories","schedules"],"all groups of consumers and generators, all interleavings of their operations, and the thread schedules met",
  "Every test uses one object at a time on one thread.",
  ["src/consumer.rs","src/generator.rs"],[("per-object state: mappings cache, source index cache, sections, tables","src/consumer.rs"),("tables and mapping list","src/generator.rs")],["BasicConsumer","IndexedConsumer","SourceMapGenerator"],
  [{"name":"parsed mappings / source index cache / sections","meaning":"state derived from one object's own document","where":"src/consumer.rs"}])
p("C35","A map cut into sections answers as the whole",
  "For every well-formed plain map and every list of positions: the sectioned map whose sections hold the mappings from each position to the next, relative to it, visits the same mappings in generated order, with the same sources, names and originals; answers a forward lookup as the whole map does when the nearest mapping lies in the section of the position looked up, and with nothing when it does not; ends a span where the whole map ends it or where the next section begins, whichever comes first; and answers reverse lookups and content requests for a source that only one section's mappings refer to as the whole map does.",
  I,"all well-formed plain maps, all cuts, all positions, biases and sources",
  "Tests look at one sectioned fixture at a few positions and never compare it with the map it was made from.",
  ["src/consumer.rs"],[("IndexedConsumer: section search, coordinate shifts, each_mapping, all_generated_position_for","src/consumer.rs")],["IndexedConsumer","BasicConsumer"])
p("C36","Answers depend on what a document says, not on how it is laid out",
  "Two well-formed plain documents that state the same mappings in terms of source names, names and positions answer every request alike (by name), whatever the order of their tables of sources and names, the order of the segments within a line, entries and contents that no mapping refers to, the file member, and members the format does not define.",
  I,"all well-formed plain maps and restatements of them, all requests",
  "Every fixture lists its tables in order of first use, with segments in order and no unused entries.",
  ["src/consumer.rs","src/source_map.rs","src/array_set.rs"],[("BasicConsumer: absolute_sources, names, find_source_index; SourceMapJson","src/consumer.rs"),("serde attributes","src/source_map.rs")],["BasicConsumer","create_consumer"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
