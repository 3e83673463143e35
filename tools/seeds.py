"""The planted changes: what they edit, and the program that shows the difference."""
PRELUDE = r'''#![allow(unused_imports, dead_code)]
use rusty_source_map::consumer::*;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::{Position, SourceMapJson};
use rusty_source_map::array_set::ArraySet;
use rusty_source_map::{base64, base64_vlq, binary_search, util};
use source_map_mappings::Bias;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn pos(line: i32, column: i32) -> Position { Position { line, column } }
fn map(g: (i32, i32), o: Option<(&str, i32, i32)>, name: Option<&str>) -> Mapping {
    Mapping {
        generated: pos(g.0, g.1),
        original: o.map(|o| pos(o.1, o.2)),
        source: o.map(|o| o.0.to_string()),
        name: name.map(|n| n.to_string()),
        last_generated_column: None,
    }
}
fn refused<T>(f: impl FnOnce() -> T) -> bool { catch_unwind(AssertUnwindSafe(f)).is_err() }
type Rec = (u32, u32, Option<u32>, Option<(u32, u32, u32, Option<u32>)>);
fn rec(m: &source_map_mappings::Mapping) -> Rec {
    (m.generated_line, m.generated_column, m.last_generated_column,
     m.original.as_ref().map(|o| (o.source, o.original_line, o.original_column, o.name)))
}
fn all<C: ConsumerTrait>(c: &mut C, ord: IterOrd) -> Vec<Rec> {
    let out = RefCell::new(vec![]);
    c.each_mapping(|m| out.borrow_mut().push(rec(m)), ord);
    out.into_inner()
}
fn basic(text: &str, url: Option<&str>) -> BasicConsumer {
    match create_consumer(text, url).unwrap() { Consumer::BasicConsumer(c) => c, _ => panic!("not plain") }
}
fn indexed(text: &str, url: Option<&str>) -> IndexedConsumer {
    match create_consumer(text, url).unwrap() { Consumer::IndexedConsumer(c) => c, _ => panic!("not sectioned") }
}
'''
SEEDS = []
def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo="fn main() {\n" + demo.strip("\n") + "\n}\n", needs=needs, breaks=breaks))

VLQ, B64, GEN, UTIL, CON, LST, SET, BIN, SM = ("src/base64_vlq.rs", "src/base64.rs", "src/generator.rs", "src/util.rs",
    "src/consumer.rs", "src/mapping_list.rs", "src/array_set.rs", "src/binary_search.rs", "src/source_map.rs")

seed("vlq-six-digits", "C01", [(VLQ, "    loop {\n        digit", "    for _ in 0..6 {\n        digit")],
 r'''
    assert_eq!(base64_vlq::base64vlq_encode(i32::MAX), "+/////D");
    assert_eq!(base64_vlq::base64vlq_encode(1 << 29), "ggggggB");
 ''', "a number of magnitude 2^29 or more", "Numbers needing seven digits are cut after the sixth, leaving a dangling continuation bit.")

seed("base64-low-byte", "C01", [(B64, "    if 0 <= num && num < INT_TO_CHAR_MAP.len() as i32 {\n        Some(INT_TO_CHAR_MAP[num as usize]", "    if usize::from(num as u8) < INT_TO_CHAR_MAP.len() {\n        Some(INT_TO_CHAR_MAP[usize::from(num as u8)]")],
 r'''
    for n in [-256, -1, 64, 256, 300, 1 << 20, i32::MIN] { assert_eq!(base64::encode(n), None, "{}", n); }
 ''', "a number outside 0..=63 whose low byte is below 64", "256, -256 and the like get a digit instead of being refused.")

seed("dedupe-ignores-name", "C02", [(GEN, "if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {", "let previous = Mapping {\n                    name: mapping.name.clone(),\n                    ..mappings[i - 1].clone()\n                };\n                if mapping.original.is_some()\n                    && util::compare_by_generated_pos_inflated(&mapping, &previous) == 0\n                {")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 4), Some(("a.js", 2, 3)), Some("x")));
    g.add_mapping(map((1, 4), Some(("a.js", 2, 3)), Some("y")));
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    assert_eq!(all(&mut c, IterOrd::GeneratedOrd).len(), 2);
 ''', "two mappings that agree in everything but the name", "The second of two mappings that differ only in their name is dropped from the mappings text.")

seed("name-of-line-start", "C02", [(GEN, """                while mapping.generated.line != previous_generated_line {
                    next += ";";
                    previous_generated_line += 1;
                }
""", """                let lines = mapping.generated.line - previous_generated_line;
                next += &";".repeat(lines as usize);
                if lines > 64 {
                    previous_name = 0;
                }
                previous_generated_line = mapping.generated.line;
""")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), Some("x")));
    g.add_mapping(map((1, 2), Some(("a.js", 1, 2)), Some("y")));
    g.add_mapping(map((100, 0), Some(("a.js", 1, 3)), Some("y")));
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    let m = c.original_position_for(pos(100, 0), None).unwrap();
    assert_eq!(m.name.as_deref(), Some("y"));
 ''', "a jump of more than 64 generated lines after a name other than the first was used", "The name delta is restarted after a large gap of lines, which the format does not do.")

seed("empty-names-dropped", "C03", [(GEN, "let name: Option<String> = mapping.name.clone();", "let name: Option<String> = mapping.name.clone().filter(|it| !it.is_empty());"),
   (GEN, "if let Some(mapping_name) = mapping.name {", "if let Some(mapping_name) = mapping.name.filter(|it| !it.is_empty()) {")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), Some("")));
    let d: SourceMapJson = serde_json::from_str(&g.as_string()).unwrap();
    assert_eq!(d.names.unwrap(), vec![String::new()]);
 ''', "a mapping named by the empty string", "The empty name is left out of the names table and of the mappings.")

seed("blank-file-dropped", "C03", [(GEN, "file: self.file.clone(),\n            source_root", "file: self.file.as_deref().map(str::trim_end).map(String::from),\n            source_root")],
 r'''
    let mut g = SourceMapGenerator::new(Some("a.js \u{3000}".to_string()), None, false);
    let d: SourceMapJson = serde_json::from_str(&g.as_string()).unwrap();
    assert_eq!(d.file.as_deref(), Some("a.js \u{3000}"));
 ''', "a file name that ends in white space", "The document's file loses its trailing white space.")

seed("content-removal-key", "C04", [(GEN, "Some(ref s) => util::relative(s.clone(), source.clone()),", "Some(ref s) if source_content.is_some() => util::relative(s.clone(), source.clone()),\n            Some(_) => source,")],
 r'''
    let mut g = SourceMapGenerator::new(None, Some("/root".to_string()), false);
    g.add_mapping(map((1, 0), Some(("/root/a.js", 1, 0)), None));
    g.add_mapping(map((1, 1), Some(("/root/b.js", 1, 0)), None));
    g.set_source_content("/root/a.js".to_string(), Some("A".to_string()));
    g.set_source_content("/root/b.js".to_string(), Some("B".to_string()));
    g.set_source_content("/root/a.js".to_string(), None);
    let d: SourceMapJson = serde_json::from_str(&g.as_string()).unwrap();
    assert_eq!(d.sources_content.unwrap(), vec![None, Some("B".to_string())]);
 ''', "a source root, and a content removed after it was set under a name that is not yet relative to the root", "The removal looks for the wrong key, so the removed content is still written.")

seed("content-relative-once", "C04", [(GEN, "                if let Some(ref root) = source_root {\n                    source = ", "                if let Some(ref root) = source_root.filter(|_| source.starts_with('/')) {\n                    source = "),
     (GEN, "            .map(|mut source| -> Option<String> {", "            .map(|mut source| -> Option<String> {\n                let source_root = source_root.clone();")],
 r'''
    let mut g = SourceMapGenerator::new(None, Some("lib".to_string()), false);
    g.add_mapping(map((1, 0), Some(("lib/a.js", 1, 0)), None));
    g.set_source_content("lib/a.js".to_string(), Some("A".to_string()));
    let d: SourceMapJson = serde_json::from_str(&g.as_string()).unwrap();
    assert_eq!(d.sources_content.unwrap(), vec![Some("A".to_string())]);
 ''', "a relative source root with sources spelled below it", "Contents of sources spelled relatively under a relative root are written as null.")

seed("last-after-disorder", "C29", [(LST, "            self.sorted = false;\n            self.array.push(mapping)", "            self.sorted = false;\n            self.array.push(mapping.clone());\n            self.last = Some(mapping);")],
 r'''
    let mut l = MappingList::new();
    for c in [5, 3] { l.add(map((1, c), None, None)); }
    l.to_array();
    l.add(map((1, 4), None, None));
    let v: Vec<i32> = l.to_array().iter().map(|m| m.generated.column).collect();
    assert_eq!(v, vec![3, 4, 5]);
 ''', "an out-of-order addition, a read, then an addition between the two", "The position remembered as last is not the greatest held, so a later addition is taken to be in order and the read view is unsorted.")

seed("last-reset-on-read", "C05", [(LST, "            self.sorted = true;\n", "            *self = MappingList {\n                array: std::mem::take(&mut self.array),\n                ..Default::default()\n            };\n")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    let mut h = SourceMapGenerator::new(None, None, false);
    for c in [9, 7] { g.add_mapping(map((1, c), None, None)); h.add_mapping(map((1, c), None, None)); }
    g.as_string();
    g.add_mapping(map((1, 2), None, None)); h.add_mapping(map((1, 2), None, None));
    assert_eq!(g.as_string(), h.as_string());
 ''', "serialising after out-of-order additions, then adding an earlier mapping", "A document asked for in between makes the later one list its mappings out of order.")

seed("name-without-source", "C06", [(GEN, "            && mapping.source.is_none()\n            && mapping.name.is_none()) // case 1", "            && mapping.source.is_none()) // case 1")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    assert!(refused(|| g.add_mapping(map((1, 0), None, Some("x")))));
 ''', "a mapping with a name but neither source nor original position", "An ill-formed mapping is accepted (and its name put into the table).")

seed("negative-column-with-source", "C06", [(GEN, "                && mapping.generated.line > 0\n                && mapping.generated.column >= 0\n                && mapping.original.as_ref().unwrap().line > 0", "                && (mapping.generated.line > 1 || mapping.generated.column >= 0)\n                && mapping.generated.line > 0\n                && mapping.original.as_ref().unwrap().line > 0")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    assert!(refused(|| g.add_mapping(map((2, -1), Some(("a.js", 1, 0)), None))));
 ''', "a full mapping with a negative generated column on a line after the first", "A negative generated column is accepted.")

seed("sources-deduplicated", "C15", [(CON, '''            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(
''', '''            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                false,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(
''')],
 r'''
    let c = basic(r#"{"version":3,"sources":["a.js","x/../a.js","b.js"],"names":[],"mappings":"AAAA,CEAA"}"#, None);
    assert_eq!(c.get_sources(), vec!["a.js", "a.js", "b.js"]);
 ''', "two entries of the document's sources that resolve to the same name", "The reported list of sources loses entries, and every source number behind the first repetition is off.")

seed("original-column-u16", "C09", [(CON, "                (original_line - 1) as u32,\n                original_column as u32,\n                bias,", "                (original_line - 1) as u32,\n                u32::from(original_column as u16),\n                bias,")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 3), Some(("a.js", 1, 10)), None));
    g.add_mapping(map((1, 9), Some(("a.js", 1, 65540)), None));
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    assert_eq!(c.generated_position_for("a.js", 1, 65540, None).unwrap().generated.column, 9);
 ''', "an original column of 65536 or more", "The column asked for is taken modulo 65536 (a minified original on one line).")

seed("nearest-line-must-match", "C10", [(CON, """            )
            .cloned()
            .collect()
    }
""", """            )
            .filter(|it| {
                // The nearest line can be a later one.
                it.original
                    .as_ref()
                    .map_or(false, |it| it.original_line < original_line as u32)
            })
            .map(|it| it.clone())
            .collect()
    }
""")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 7), Some(("a.js", 5, 0)), None));
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    assert_eq!(c.all_generated_position_for("a.js", 3, None).len(), 1);
 ''', "asking without a column for a line that has no mapping, before one that has", "The nearest line's mappings are dropped.")

seed("original-order-by-line", "C11", [(CON, "IterOrd::OriginalOrd => mappings.by_original_location().for_each(f),", '''IterOrd::OriginalOrd => {
                let mut ordered: Vec<_> = mappings
                    .by_generated_location()
                    .iter()
                    .filter(|it| it.original.is_some())
                    .collect();
                ordered.sort_by_key(|it| {
                    let original = it.original.as_ref().unwrap();
                    (original.original_line, original.original_column, original.source)
                });
                ordered.into_iter().for_each(f)
            }''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 9, 0)), None));
    g.add_mapping(map((1, 5), Some(("b.js", 1, 0)), None));
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    let s: Vec<u32> = all(&mut c, IterOrd::OriginalOrd).iter().map(|r| r.3.unwrap().0).collect();
    assert_eq!(s, vec![0, 1]);
 ''', "several sources whose lines interleave", "Enumeration in original order is by line and column before source.")

seed("spans-before-parsing", "C12", [(CON, '''            return;
        }

        if self.mappings.is_none() {
            self.mappings = self.parse_mappings().ok();
        }

        let mappings = self.mappings.as_mut().unwrap();
        mappings.compute_column_spans();
        self.computed_column_spans = true;''', '''            return;
        }

        if let Some(mappings) = self.mappings.as_mut() {
            mappings.compute_column_spans();
        }
        self.computed_column_spans = true;''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,IAAI"}"#, None);
    c.compute_column_spans();
    assert_eq!(all(&mut c, IterOrd::GeneratedOrd)[0].2, Some(4));
 ''', "asking for the spans before any lookup or enumeration", "Spans are marked as computed but never are, when nothing has parsed the mappings yet.")

seed("cached-unknown-source", "C13", [(CON, '''            return Some(index as i32);
        }

        None
    }

    pub fn get_sources''', '''            return Some(index as i32);
        }

        self.source_lookup_cache.insert(source.to_string(), -1)
    }

    pub fn get_sources''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA","sourcesContent":["x"]}"#, None);
    for _ in 0..2 { assert!(refused(|| c.source_content_for("b.js", None))); }
 ''', "asking twice for the same unknown source", "The second request for an unknown source finds a cached index and is answered instead of refused.")

seed("original-column-cast", "C14", [(CON, "                            column: original.original_column as i32,", "                            column: i32::from(original.original_column as i16),")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 3), Some(("a.js", 1, 40000)), None));
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    assert_eq!(c.original_position_for(pos(1, 3), None).unwrap().original.unwrap().column, 40000);
 ''', "an original column of 32768 or more", "The forward lookup reports a wrapped original column that the reverse lookup does not agree with.")

seed("normalise-only-when-joined", "C15", [(UTIL, '''    let mut url = NORMALIZE(source_url.to_string());

    if let Some(source_root)''', '''    // Joining normalises as well.
    let mut url = if source_root.is_none() && source_map_url.is_none() && !source_url.contains("../") {
        source_url.to_string()
    } else {
        NORMALIZE(source_url.to_string())
    };

    if let Some(source_root)''')],
 r'''
    let c = basic(r#"{"version":3,"sources":["./a.js","b/..","c d.js"],"names":[],"mappings":""}"#, None);
    assert_eq!(c.get_sources(), vec!["a.js", "", "c%20d.js"]);
 ''', "a source spelled with . segments or characters to escape, without root and map URL", "Such sources are reported as spelled instead of normalised.")

seed("safe-base-trailing-dots", "C15", [(UTIL, 'dots.split("..").count() - 1;', 'dots.split("../").count() - 1;'), (UTIL, 'let segment = build_unique_segment("p", input);', 'let segment = build_unique_segment("p", &dots);')],
 r'''
    let c = basic(r#"{"version":3,"sources":["a/../../..","../.."],"names":[],"mappings":""}"#, None);
    assert_eq!(c.get_sources(), vec!["../../", "../../"]);
 ''', "a source that ends in .. and climbs above its start", "The safe base is one level too shallow, so a climb is lost.")

seed("safe-segment-fixed", "C18", [(UTIL, "        if !input.contains(ident.as_str()) {", "        if !input.ends_with(ident.as_str()) {")],
 r'''
    assert_eq!(util::join("..", "p0/a"), "../p0/a");
    assert_eq!(util::join("../..", "../p0/x"), "../../../p0/x");
 ''', "a reference that climbs and then enters a directory called p0", "The segment that stands for unknown parents is not unique, so the climb is swallowed.")

seed("relative-any-case", "C18", [(UTIL, "target_parts.front().unwrap() == root_parts.front().unwrap()", "target_parts\n            .front()\n            .unwrap()\n            .eq_ignore_ascii_case(root_parts.front().unwrap())")],
 r'''
    assert_eq!(util::relative("/a/B".into(), "/a/b/c".into()), "../b/c");
 ''', "a root and a target whose directories differ only in case", "The differing directory is taken to be shared.")

seed("relative-other-port", "C18", [(UTIL, "        || target_url.port() != root_url.port()\n", "        || target_url.port().is_some() != root_url.port().is_some()\n")],
 r'''
    assert_eq!(util::relative("http://h:81/a".into(), "http://h:82/a/b".into()), "http://h:82/a/b");
 ''', "two URLs that differ only in a port both give", "A target on another port is made relative to the root.")

seed("root-relative-first", "C16", [(CON, '''            util::compute_source_url(None, source, self.source_map_url.as_deref());
        if self.absolute''', '''            util::compute_source_url(
                self.source_map.source_root.as_deref(),
                source,
                self.source_map_url.as_deref(),
            );
        if self.absolute'''),
   (CON, '''        let source_as_source_root_relative = util::compute_source_url(
            self.source_map.source_root.as_deref(),
            source,''', '''        let source_as_source_root_relative = util::compute_source_url(
            None,
            source,''')],
 r'''
    let mut c = basic(r#"{"version":3,"sourceRoot":"r","sources":["a.js","../a.js"],"names":[],"mappings":"AAAA,KCAA"}"#, None);
    assert_eq!(c.get_sources(), vec!["r/a.js", "a.js"]);
    assert_eq!(c.generated_position_for("a.js", 1, 0, None).unwrap().generated.column, 5);
 ''', "a source whose reported name is another source's name relative to the root", "A reported name denotes another source than the one it was reported for.")

seed("root-fallback-no-url", "C16", [(CON, '''            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref(),
        );
        if self
            .absolute_sources''', '''            self.source_map.source_root.as_deref(),
            source,
            self.source_map_url.as_deref().filter(|_| source.contains('/')),
        );
        if self
            .absolute_sources''')],
 r'''
    let mut c = basic(r#"{"version":3,"sourceRoot":"r","sources":["a.js"],"names":[],"mappings":"AAAA"}"#, Some("http://h/m.map"));
    assert!(c.generated_position_for("a.js", 1, 0, None).is_some());
 ''', "a map URL, a source root, and a source asked for by its bare name in the document", "The bare name denotes nothing.")

seed("content-by-raw-name", "C17", [(CON, "        let index = self.find_source_index(source);\n        return match index {", '''        let index = self
            .source_map
            .sources
            .as_ref()
            .and_then(|it| it.iter().position(|it| it == source))
            .map(|it| it as i32)
            .or_else(|| self.find_source_index(source));
        return match index {''')],
 r'''
    let mut c = basic(r#"{"version":3,"sourceRoot":"r","sources":["a.js","../a.js"],"names":[],"mappings":"","sourcesContent":["one","two"]}"#, None);
    assert_eq!(c.get_sources(), vec!["r/a.js", "a.js"]);
    assert_eq!(c.source_content_for("a.js", None).as_deref(), Some("two"));
 ''', "a source whose reported name is spelled like another entry of the document", "Its content is that of the other entry.")

seed("section-by-upper-bound", "C19", [(CON, '''            None,
        );

        (&*self.sections)''', '''            match bias {
                Some(Bias::LeastUpperBound) => Some(binary_search::LEAST_UPPER_BOUND),
                _ => None,
            },
        );

        (&*self.sections)''')],
 r'''
    let m = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,KAAK"}"#;
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{{"offset":{{"line":0,"column":0}},"map":{m}}},{{"offset":{{"line":5,"column":0}},"map":{m}}}]}}"#), None);
    assert_eq!(c.original_position_for(pos(1, 2), Some(Bias::LeastUpperBound)).unwrap().generated.column, 5);
 ''', "the least-upper-bound bias on a position strictly inside a section", "The section is chosen by the bias as well, so the next section is asked.")

seed("section-column-all-lines", "C20", [(CON, "                    if generated_position.generated.line == 1 {\n", "                    if generated_position.generated.line == 1 || line_shift == 0 {\n")],
 r'''
    let m = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA;AACA"}"#;
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{{"offset":{{"line":0,"column":10}},"map":{m}}}]}}"#), None);
    let p = c.generated_position_for("a.js", 2, 0, None).unwrap();
    assert_eq!((p.line, p.column), (2, 0));
 ''', "a section that starts within the first line, and a position on a later line of it", "The column offset is applied to lines other than the section's first.")

seed("section-span-unshifted", "C21", [(CON, "                                        *it += column_shift as u32;", "                                        *it = (*it).max(mapping.generated_column);")],
 r'''
    let m = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,KAAK"}"#;
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{{"offset":{{"line":0,"column":10}},"map":{m}}}]}}"#), None);
    c.computed_column_spans();
    assert_eq!(all(&mut c, IterOrd::GeneratedOrd)[0].2, Some(15));
 ''', "computed spans and a section that starts within a line", "The span end of a mapping on the section's first line is not moved with it.")

seed("sections-sorted-by-line", "C22", [(CON, '''                    .par_iter()
                    .map({
                        move |section| {''', '''                    .par_iter()
                    .enumerate()
                    .map({
                        move |(index, section)| {'''),
  (CON, '''                            Section {
                                generated_offset: Position {''', '''                            let section = Section {
                                generated_offset: Position {'''),
  (CON, '''                                consumer: BasicConsumer::from_source_map_json(
                                    *section.map.clone(),
                                    source_map_url,
                                ),
                            }
                        }
                    })
                    .collect(),''', '''                                consumer: BasicConsumer::from_source_map_json(
                                    *section.map.clone(),
                                    source_map_url,
                                ),
                            };
                            opened.lock().unwrap().push((line, index, section));
                        }
                    })
                    .for_each(|_| ());
                // The sections come in the order in which they were opened.
                let mut opened = opened.into_inner().unwrap();
                opened.sort_by_key(|it| it.0);
                opened.into_iter().map(|it| it.2).collect()'''),
  (CON, '''            sections: Rc::new(RefCell::new(
                source_map
                    .sections''', '''            sections: Rc::new(RefCell::new({
                let opened = std::sync::Mutex::new(vec![]);
                let opened = &opened;
                source_map
                    .sections'''),
 ] if False else [(CON, '''                source_map
                    .sections
                    .unwrap()
                    .par_iter()
                    .map({
                        move |section| {''', '''                Self::in_order(source_map
                    .sections
                    .unwrap()
                    .par_iter()
                    .fold(Vec::new, {
                        move |mut opened: Vec<Section>, section| {'''),
  (CON, '''                            Section {
                                generated_offset: Position {''', '''                            opened.push(Section {
                                generated_offset: Position {'''),
  (CON, '''                                    source_map_url,
                                ),
                            }
                        }
                    })
                    .collect(),
            )),
        }
    }
''', '''                                    source_map_url,
                                ),
                            });
                            opened
                        }
                    }))
            )),
        }
    }

    /// Puts the parts that were opened in parallel together again.
    fn in_order(parts: impl ParallelIterator<Item = Vec<Section>>) -> Vec<Section> {
        let all = std::sync::Mutex::new(vec![]);
        parts.for_each(|it| all.lock().unwrap().extend(it));
        let mut all = all.into_inner().unwrap();
        all.sort_by_key(|it: &Section| it.generated_offset.line);
        all
    }
''')],
 r'''
    // Many sections on one line, opened on many threads, many times.
    let sections: Vec<String> = (0..64).map(|i| format!(
        r#"{{"offset":{{"line":0,"column":{}}},"map":{{"version":3,"sources":["s{}.js"],"names":[],"mappings":"AAAA"}}}}"#, i * 10, i)).collect();
    let text = format!(r#"{{"version":3,"sections":[{}]}}"#, sections.join(","));
    let want: Vec<String> = (0..64).map(|i| format!("s{}.js", i)).collect();
    let pool = rayon::ThreadPoolBuilder::new().num_threads(8).build().unwrap();
    for _ in 0..300 {
        assert_eq!(pool.install(|| indexed(&text, None).get_sources()), want);
    }
 ''', "several sections on one line, and a thread schedule that opens a later one first", "The sections of a line are kept in the order in which the threads finished.")

seed("older-versions-accepted", "C22", [(CON, '''so we use loose equality checking here.
        if version != SUPPORTED_SOURCE_MAP_VERSION {''', '''so we use loose equality checking here.
        if version > SUPPORTED_SOURCE_MAP_VERSION {''')],
 r'''
    assert!(refused(|| create_consumer(r#"{"version":2,"sections":[]}"#, None)));
 ''', "a sectioned document of a version below 3", "It is accepted.")

seed("content-first-lister", "C23", [(CON, """            if let Some(it) = section
                .consumer
                .source_content_for(source, Some(false))
            {
                return Some(it);
            }
""", """            if section.consumer.find_source_index(source).is_some() {
                return section.consumer.source_content_for(source, panic_on_missing);
            }
""")],
 r'''
    let m = |c: &str| format!(r#"{{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA","sourcesContent":[{}]}}"#, c);
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{{"offset":{{"line":0,"column":0}},"map":{}}},{{"offset":{{"line":5,"column":0}},"map":{}}}]}}"#, m("null"), m("\"text\"")), None);
    assert_eq!(c.source_content_for("a.js", Some(false)).as_deref(), Some("text"));
 ''', "a source listed by two sections of which only the later has its content", "The content held by the later section is not found.")

seed("empty-sections-are-plain", "C24", [(CON, "if source_map.sections.is_some() {", "if source_map.sections.as_ref().map_or(0, |it| it.len()) > 0 {")],
 r'''
    assert!(create_consumer(r#"{"version":3,"sections":[]}"#, None).unwrap().try_as_indexed_consumer().is_some());
    assert!(create_consumer(r#"{"version":3,"sources":[],"sections":[]}"#, None).unwrap().try_as_indexed_consumer().is_some());
 ''', "a document with an empty list of sections", "It is not opened as a sectioned map.")

seed("lines-before-damage", "C25", [(CON, '''        source_map_mappings::parse_mappings::<()>(
            self.source_map.mappings.as_ref().unwrap().as_bytes(),
        )''', '''        let mappings = self.source_map.mappings.as_ref().unwrap();
        source_map_mappings::parse_mappings::<()>(mappings.as_bytes()).or_else(|error| {
            // Cut off in the middle of a line: keep the whole lines.
            match mappings.rfind(';') {
                Some(end) => source_map_mappings::parse_mappings::<()>(mappings[..end].as_bytes()),
                None => Err(error),
            }
        })''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA;AA!"}"#, None);
    assert!(all(&mut c, IterOrd::GeneratedOrd).is_empty());
 ''', "damage on the last line of a mappings text with several lines", "The mappings before the damage are delivered.")

seed("line-zero-forward", "C26", [(CON, '''        if generated_line < 1 {
            panic''', '''        if generated_line < 0 {
            panic''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}"#, None);
    assert!(refused(|| c.original_position_for(pos(0, 0), None)));
 ''', "a forward lookup with line 0", "Line 0 is not refused.")

seed("first-only-for-exact", "C27", [(BIN, "    while index > 0 {\n", "    // An inexact hit is next to the needle's place already.\n    let exact = compare1(&needle, &hay_stack[index as usize]) == 0;\n    while exact && index > 0 {\n")],
 r'''
    let cmp = |a: &i32, b: &i32| a - b;
    assert_eq!(binary_search::search(4, &[1, 3, 3, 3, 9], cmp, cmp, None), 1);
 ''', "a needle that is absent, with the nearest smaller element repeated", "The last of the repeated elements is returned instead of the first.")

seed("last-index-of-duplicate", "C28", [(SET, '''        if !is_duplicate {
            self.set.insert(data, idx);''', '''        if !is_duplicate || allow_duplicates {
            self.set.insert(data, idx);''')],
 r'''
    let s = ArraySet::from_array(vec!["a".into(), "b".into(), "a".into()], true);
    assert_eq!(s.index_of("a".into()), Some(0));
 ''', "a repeated string inserted with duplicates allowed", "Its index becomes that of its last occurrence.")

seed("sorted-view-deduplicated", "C29", [(LST, "        self.array.clone()\n", "        let mut view = self.array.clone();\n        view.dedup_by(|a, b| util::compare_by_generated_pos_inflated(a, b) == 0);\n        view\n")],
 r'''
    let mut l = MappingList::new();
    for c in [5, 3, 3] { l.add(map((1, c), None, None)); }
    assert_eq!(l.to_array().len(), 3);
 ''', "the same mapping added twice", "Repetitions are missing from the sorted view.")

seed("utf16-order", "C30", [(UTIL, "    if a.unwrap() > b.unwrap() {", "    if a.unwrap().encode_utf16().gt(b.unwrap().encode_utf16()) {")],
 r'''
    assert_eq!(util::strcmp(Some("\u{ff5e}".into()), Some("\u{1f600}".into())), -1);
 ''', "strings in which a character above U+FFFF meets one from U+E000 to U+FFFF", "Strings are ordered by UTF-16 units, not by code points.")

seed("unnamed-equals-named", "C30", [(UTIL, "    strcmp(a.name.clone(), b.name.clone())\n", "    match (&a.name, &b.name) {\n        (Some(_), Some(_)) => strcmp(a.name.clone(), b.name.clone()),\n        _ => 0,\n    }\n")],
 r'''
    let (a, b) = (map((1, 0), Some(("a", 1, 0)), Some("x")), map((1, 0), Some(("a", 1, 0)), None));
    assert!(util::compare_by_generated_pos_inflated(&a, &b) < 0);
 ''', "two mappings that differ only in one having a name", "They compare as equal, so the order is not transitive and one of them is dropped when written.")

seed("empty-sections-vanish", "C31", [(SM, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub sections: Option<Vec<Section>>,
}''', '''    #[serde(skip_serializing_if = "no_sections")]
    pub sections: Option<Vec<Section>>,
}

fn no_sections(sections: &Option<Vec<Section>>) -> bool {
    sections.iter().all(|it| it.is_empty())
}''')],
 r'''
    let d: SourceMapJson = serde_json::from_str(r#"{"version":3,"sections":[]}"#).unwrap();
    assert!(serde_json::to_string(&d).unwrap().contains("sections"));
 ''', "a document with an empty list of sections", "The list is lost when the document is written out, which makes it one that cannot be opened.")

seed("consume-without-url", "C32", [(CON, "        let consumer = IndexedConsumer::new(source_map_raw.as_str(), Some(source_map_url.as_str()));", "        let url = Some(source_map_url.as_str()).filter(|it| it.contains(\"://\"));\n        let consumer = IndexedConsumer::new(source_map_raw.as_str(), url);")],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let want = indexed(t, Some("/dir/m.map")).get_sources();
    IndexedConsumer::consume(t.to_string(), "/dir/m.map".to_string(), |c| assert_eq!(c.get_sources(), want));
 ''', "a sectioned map used through the scoped entry point with a map URL that is not absolute", "The map URL is ignored there.")

seed("new-forgets-relative-url", "C32", [(CON, '''            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json''', '''            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map.file.as_ref().and(source_map_url).map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json''')],
 r'''
    let t = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}"#;
    let mut a = BasicConsumer::new(t, Some("http://h/m.map"));
    let mut b = basic(t, Some("http://h/m.map"));
    assert_eq!(a.generated_position_for("a.js", 1, 0, None).is_some(), b.generated_position_for("a.js", 1, 0, None).is_some());
 ''', "a plain map without a file member, opened by the direct constructor with a map URL, and a source named relative to that URL", "The map URL is not remembered for lookups by the direct constructor.")

seed("from-generator-url", "C07", [(CON, '''                    .map(|it| self.absolute_sources.at(it.source as i32))
                            .flatten(),''', '''''')] if False else [(CON, "        BasicConsumer::new(source_map.as_string().as_str(), source_map_url)\n", '''        let mut source_map = source_map.as_json();
        // One text per source.
        if let (Some(contents), Some(names)) = (&mut source_map.sources_content, &source_map.names) {
            contents.truncate(names.len().max(4));
        }
        BasicConsumer::from_source_map_json(source_map, source_map_url)
''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    for i in 0..6 {
        g.add_mapping(map((1, i), Some((&format!("s{}.js", i), 1, 0)), None));
        g.set_source_content(format!("s{}.js", i), Some(format!("text {}", i)));
    }
    let mut c = BasicConsumer::from_source_map(&mut g, None);
    assert_eq!(c.source_content_for("s5.js", None).as_deref(), Some("text 5"));
 ''', "more than four sources with contents, and fewer names than sources, opened directly from the generator", "Contents behind the table of names' length are lost (the wrong table is measured).")

seed("spans-then-forward", "C08", [(CON, '''        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
''', '''        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned()
            .filter(|it| {
                // Outside of what the mapping covers.
                !self.computed_column_spans || it.generated_column <= generated_column as u32
            });
''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,KAAK"}"#, None);
    c.compute_column_spans();
    assert!(c.original_position_for(pos(1, 2), Some(Bias::LeastUpperBound)).is_some());
 ''', "computed spans, then a forward lookup with the upper-bound bias", "The mapping after the position is dropped as not covering it.")

# ---------------------------------------------------------------- third round

seed("vlq-shift-u32", "C01", [(VLQ, "        vlq = ((vlq as usize) >> VLQ_BASE_SHIFT) as i64;", "        vlq = i64::from((vlq as u32) >> VLQ_BASE_SHIFT);"),
 (VLQ, "        digit = ((vlq as usize) & VLQ_BASE_MASK) as i32;", "        digit = (vlq & VLQ_BASE_MASK as i64) as i32;")],
 r'''
    assert_eq!(base64_vlq::base64vlq_encode(i32::MAX), "+/////D");
    assert_eq!(base64_vlq::base64vlq_encode(i32::MIN), "hgggggE");
 ''', "the single number -2^31, whose sign-shifted form needs 33 bits", "-2^31 is written as a short text that decodes to something else.")

seed("name-index-i16", "C02", [(GEN, "name_idx = self.names.index_of(mapping_name).unwrap() as i32;", "name_idx = i32::from(self.names.index_of(mapping_name).unwrap() as i16);")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    let n = 33000;
    for i in 0..n { g.add_mapping(map((1, i), Some(("a.js", 1, i)), Some(&format!("n{}", i)))); }
    let mut c = basic(&g.as_string(), None);
    let last = all(&mut c, IterOrd::GeneratedOrd).pop().map(|it| it.3.unwrap().3);
    assert_eq!(last, Some(Some(n as u32 - 1)));
 ''', "more than 32767 distinct names", "Name numbers wrap to negative ones behind 32767.")

seed("sorted-snapshot", "C29", [
 (LST, "    last: Option<Mapping>,\n}\n\nimpl Default", "    last: Option<Mapping>,\n    /// What the last read returned, and how many mappings it held.\n    snapshot: Vec<Mapping>,\n}\n\nimpl Default"),
 (LST, "            last: None,\n        }", "            last: None,\n            snapshot: Vec::new(),\n        }"),
 (LST, "            self.sorted = true;\n        }\n\n        self.array.clone()", "            self.sorted = true;\n            self.snapshot = self.array.clone();\n        }\n\n        if self.snapshot.is_empty() {\n            return self.array.clone();\n        }\n        let held = self.snapshot.len();\n        self.snapshot.extend_from_slice(&self.array[held.max(self.array.len().saturating_sub(1))..]);\n        self.snapshot.clone()")],
 r'''
    let mut l = MappingList::new();
    l.add(map((2, 0), None, None)); l.add(map((1, 0), None, None));
    assert_eq!(l.to_array().len(), 2);
    l.add(map((3, 0), None, None)); l.add(map((4, 0), None, None));
    assert_eq!(l.to_array().len(), 4);
 ''', "a mapping out of order, a read, then two or more mappings in order before the next read", "Only the newest of the mappings added since the last read is visible.")

seed("traversal-blocks", "C29", [(LST, "        for (index, mapping) in self.array.iter().enumerate() {\n            callback(mapping, index);\n        }", "        for block in self.array.chunks(256) {\n            for (index, mapping) in block.iter().enumerate() {\n                callback(mapping, index);\n            }\n        }")],
 r'''
    let mut l = MappingList::new();
    for i in 0..300 { l.add(map((1, i), None, None)); }
    let seen = RefCell::new(vec![]);
    l.unsorted_for_each(|_, i| seen.borrow_mut().push(i));
    assert_eq!(seen.into_inner(), (0..300).collect::<Vec<_>>());
 ''', "more than 256 mappings and a traversal that looks at the indices", "The index starts again at zero with every block.")

seed("empty-content-missing", "C17", [(CON, "            Some(i) => sources_content.get(i as usize).cloned().flatten(),", "            Some(i) => sources_content\n                .get(i as usize)\n                .cloned()\n                .filter(|it| !it.is_empty()),"), (CON, "        let sources_content = self.source_map.sources_content.clone().unwrap();", "        let sources_content: Vec<String> = self\n            .source_map\n            .sources_content\n            .iter()\n            .flatten()\n            .map(|it| it.clone().unwrap_or_default())\n            .collect();")],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js","b.js"],"names":[],"mappings":"","sourcesContent":["","x"]}"#, None);
    assert_eq!(c.source_content_for("a.js", None).as_deref(), Some(""));
 ''', "a source whose content is the empty text", "An empty file's content is reported as missing.")

seed("empty-content-removes", "C04", [(GEN, "        if let Some(content) = source_content {\n", "        let source_content = source_content.filter(|it| !it.trim().is_empty());\n        if let Some(content) = source_content {\n")] ,
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    g.set_source_content("a.js".into(), Some("\n".into()));
    assert!(g.as_string().contains("\"sourcesContent\":[\"\\n\"]"), "{}", g.as_string());
 ''', "a content of nothing but white space", "Blank contents are dropped.") if False else None

seed("blank-content-absent", "C04", [(GEN, "                if self.source_contents.contains_key(&source) {\n                    Some(self.source_contents[&source].clone())\n                } else {\n                    None\n                }", "                self.source_contents\n                    .get(&source)\n                    .filter(|it| !it.trim().is_empty())\n                    .cloned()")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    g.set_source_content("a.js".into(), Some("\n".into()));
    assert!(g.as_string().contains("\"sourcesContent\":[\"\\n\"]"), "{}", g.as_string());
 ''', "a content of nothing but white space", "Blank contents are written as null.")

seed("offset-defaults", "C24", [(SM, "#[derive(Debug, Clone, Serialize, Deserialize, Default)]\npub struct Position {", "#[derive(Debug, Clone, Serialize, Deserialize, Default)]\n#[serde(default)]\npub struct Position {"), (SM, "    pub line: i32,\n    pub column: i32,\n", "    /// Counted from zero when missing.\n    pub column: i32,\n    pub line: i32,\n")] if False else [(SM, "#[derive(Debug, Clone, Serialize, Deserialize, Default)]\npub struct Position {\n    pub line: i32,\n    pub column: i32,", "#[derive(Debug, Clone, Default, Serialize, Deserialize)]\npub struct Position {\n    pub line: i32,\n    #[serde(default)]\n    pub column: i32,")],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":1},"map":{"version":3,"sources":[],"names":[],"mappings":""}}]}"#;
    assert!(create_consumer(t, None).is_err());
 ''', "a section offset without a column", "An incomplete offset is accepted as column zero.")

seed("mappings-trimmed", "C25", [(CON, "            self.source_map.mappings.as_ref().unwrap().as_bytes(),", "            self.source_map\n                .mappings\n                .as_ref()\n                .unwrap()\n                .trim_end()\n                .as_bytes(),")],
 r'''
    let mut c = basic("{\"version\":3,\"sources\":[\"a.js\"],\"names\":[],\"mappings\":\"AAAA;AACA\\n\"}", None);
    assert!(all(&mut c, IterOrd::GeneratedOrd).is_empty());
 ''', "white space at the very end of the mappings text", "A text with foreign characters at its end is accepted.")

seed("zero-column-is-none", "C10", [(CON, "        if original_column.map_or(false, |it| it < 0) {", "        let original_column = original_column.filter(|it| *it != 0);\n        if original_column.map_or(false, |it| it < 0) {"), (CON, "        if source.is_none() {\n            return vec![];\n        }\n\n        let source = source.unwrap();\n\n        if source < 0 {\n            return vec![];\n        }", "        let source = match source {\n            Some(it) if it >= 0 => it,\n            _ => return vec![],\n        };")],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,IAAI"}"#, None);
    assert_eq!(c.all_generated_position_for("a.js", 1, Some(0)).len(), 1);
 ''', "column zero asked for on a line with mappings of several original columns", "Column zero is taken as no column: all mappings of the line are returned.")

seed("reverse-other-side", "C09", [(CON, '''                (original_line - 1) as u32,
                original_column as u32,
                bias,
            )
            .cloned();
''', '''                (original_line - 1) as u32,
                original_column as u32,
                bias.clone(),
            )
            .cloned();
        // Nothing on that side: the other one is still on the same line.
        let mapping = mapping.or_else(|| {
            mappings
                .generated_location_for(
                    source as u32,
                    (original_line - 1) as u32,
                    original_column as u32,
                    match bias {
                        source_map_mappings::Bias::GreatestLowerBound => {
                            source_map_mappings::Bias::LeastUpperBound
                        }
                        it => it,
                    },
                )
                .filter(|it| {
                    it.original
                        .as_ref()
                        .map_or(false, |it| it.original_line == (original_line - 1) as u32)
                })
                .cloned()
        });
''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAK"}"#, None);
    assert!(c.generated_position_for("a.js", 1, 2, None).is_none());
 ''', "a lower-bound reverse lookup before the source's first mapping, on that mapping's line", "The mapping after the position is reported instead of nothing.")

seed("last-column-breaks-ties", "C30", [(UTIL, "    strcmp(a.name.clone(), b.name.clone())\n}", "    cmp = strcmp(a.name.clone(), b.name.clone());\n    if cmp != 0 {\n        return cmp;\n    }\n\n    match (a.last_generated_column, b.last_generated_column) {\n        (Some(a), Some(b)) if a < b => -1,\n        (Some(a), Some(b)) if a > b => 1,\n        _ => 0,\n    }\n}")],
 r'''
    let mut a = map((1, 0), None, None); let mut b = a.clone();
    a.last_generated_column = Some(3); b.last_generated_column = Some(4);
    assert_eq!(util::compare_by_generated_pos_inflated(&a, &b), 0);
 ''', "two mappings equal in all compared fields that carry different span ends", "The span end takes part in the comparison.")

seed("scheme-letters-only", "C18", [(UTIL, 'const ABSOLUTE_SCHEME: &str = r"^[A-Za-z][A-Za-z0-9\\+\\-\\.]*:";', 'const ABSOLUTE_SCHEME: &str = r"^[[:alpha:]][[:alnum:]]*:";'), (UTIL, "    static ref ABSOLUTE_SCHEME_REGEXP: Regex = Regex::new(ABSOLUTE_SCHEME).unwrap();", "    static ref ABSOLUTE_SCHEME_REGEXP: Regex =\n        Regex::new(ABSOLUTE_SCHEME).expect(\"a regular expression\");")],
 r'''
    assert_eq!(util::join("webpack-internal:///a", "b.js"), "webpack-internal:///a/b.js");
 ''', "a scheme with a plus, minus or dot", "Such references are taken as relative paths.")

seed("map-url-last-slash", "C15", [(UTIL, '''        url = join(
            TRIM_FILENAME(source_map_url.to_string()).as_str(),
            url.as_str(),
        );''', '''        // The map's directory.
        let end = source_map_url.rfind('/').map_or(0, |it| it + 1);
        url = join(&source_map_url[..end], url.as_str());''')],
 r'''
    assert_eq!(util::compute_source_url(None, "a.js", Some("http://h/d/m.map?from=/x/y")), "http://h/d/a.js");
    assert_eq!(util::compute_source_url(None, "a.js", Some("http://h/d/m.map")), "http://h/d/a.js");
 ''', "a map URL with a slash in its query or fragment", "The directory is cut at a slash of the query.")

seed("no-fallback-for-rooted", "C16", [(CON, '''        // Fall back to treating the source as sourceRoot-relative.
''', '''        // A rooted path is complete.
        if source.starts_with('/') {
            return None;
        }

        // Fall back to treating the source as sourceRoot-relative.
'''), (CON, "        // Treat the source as map-relative overall by default.\n", "        // Map-relative overall by default.\n")],
 r'''
    let mut c = basic(r#"{"version":3,"sourceRoot":"src","sources":["/a.js"],"names":[],"mappings":"AAAA"}"#, None);
    assert!(c.generated_position_for("/a.js", 1, 0, None).is_some());
 ''', "a source listed and asked for with a leading slash under a source root", "The spelling used in the document itself is not found.")

seed("cache-ignores-case", "C13", [
 (CON, "        let cached_index = self.source_lookup_cache.get(source);", "        // Some file systems spell drive letters and hosts either way.\n        let cached_index = self.source_lookup_cache.get(&source.to_ascii_lowercase());"),
 (CON, '''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall''', '''            self.source_lookup_cache
                .insert(source.to_ascii_lowercase(), index as i32);
            return Some(index as i32);
        }

        // Fall'''),
 (CON, '''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        None''', '''            self.source_lookup_cache
                .insert(source.to_ascii_lowercase(), index as i32);
            return Some(index as i32);
        }

        None''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js","A.js"],"names":[],"mappings":"AAAA,ICAA"}"#, None);
    let fresh = c.generated_position_for("A.js", 1, 0, None).map(|it| it.generated.column);
    let mut c = basic(r#"{"version":3,"sources":["a.js","A.js"],"names":[],"mappings":"AAAA,ICAA"}"#, None);
    c.generated_position_for("a.js", 1, 0, None);
    assert_eq!(c.generated_position_for("A.js", 1, 0, None).map(|it| it.generated.column), fresh);
 ''', "a source looked up, then another spelling of it that differs in letter case only", "The second lookup is answered for the first source.")

seed("safe-segment-digit", "C18", [(UTIL, '        let ident = format!("{}{}", prefix, id);', '        // One digit keeps the base short.\n        let ident = format!("{}{}", prefix, id % 10);')],
 r'''
    let path = (0..10).map(|i| format!("p{}", i)).collect::<Vec<_>>().join("/");
    assert_eq!(util::join("a", &path), format!("a/{}", path));
 ''', "a reference that contains p0 to p9", "The search for a segment the reference does not contain never ends.")

seed("sections-pushed-in-parallel", "C22", [
 (CON, '''            sections: Rc::new(RefCell::new(
                source_map
                    .sections
                    .unwrap()
                    .par_iter()
                    .map({''', '''            sections: Rc::new(RefCell::new({
                let opened = std::sync::Mutex::new(vec![]);
                source_map
                    .sections
                    .unwrap()
                    .par_iter()
                    .for_each({
                        let opened = &opened;'''),
 (CON, '''                            Section {
                                generated_offset: Position {''', '''                            let section = Section {
                                generated_offset: Position {'''),
 (CON, '''                                    *section.map.clone(),
                                    source_map_url,
                                ),
                            }
                        }
                    })
                    .collect(),
            )),''', '''                                    *section.map.clone(),
                                    source_map_url,
                                ),
                            };
                            opened.lock().unwrap().push(section);
                        }
                    });
                let mut opened = opened.into_inner().unwrap();
                opened.sort_by_key(|it: &Section| it.generated_offset.line);
                opened
            })),''')],
 r'''
    let n = 400;
    let t = format!(r#"{{"version":3,"sections":[{}]}}"#, (0..n).map(|i| format!(r#"{{"offset":{{"line":0,"column":{}}},"map":{{"version":3,"sources":["s{}.js"],"names":[],"mappings":""}}}}"#, i * 3, i)).collect::<Vec<_>>().join(","));
    let want: Vec<String> = (0..n).map(|i| format!("s{}.js", i)).collect();
    for _ in 0..50 { assert_eq!(indexed(&t, None).get_sources(), want); }
 ''', "several sections on one line, opened by more than one thread", "Sections of one line end up in the order the threads finished them.")

seed("enumeration-skips-repeats", "C11", [(CON, "            IterOrd::GeneratedOrd => mappings.by_generated_location().iter().for_each(f),", '''            IterOrd::GeneratedOrd => {
                let mut previous: Option<&source_map_mappings::Mapping> = None;
                for mapping in mappings.by_generated_location() {
                    let repeats = previous.map_or(false, |it| {
                        it.generated_line == mapping.generated_line
                            && it.generated_column == mapping.generated_column
                            && it.original.is_none()
                            && mapping.original.is_none()
                    });
                    if !repeats {
                        f(mapping);
                    }
                    previous = Some(mapping);
                }
            }''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"C,A"}"#, None);
    assert_eq!(all(&mut c, IterOrd::GeneratedOrd).len(), 2);
 ''', "the same generated-only mapping twice in the document", "Repeated generated-only mappings are visited once.")

seed("refusal-leaves-names", "C06", [
 (GEN, '''        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
            panic!("Invalid mapping: {:?}", mapping);
        }

        let source: Option<String> = mapping.source.clone();
        let name: Option<String> = mapping.name.clone();

        if let Some(ref s) = source {
            if !self.sources.has(s.clone()) {
                self.sources.add(s.clone(), false)
            }
        }

        if let Some(ref n) = name {
            if !self.names.has(n.clone()) {
                self.names.add(n.clone(), false);
            }
        }
''', '''        if let Some(ref s) = mapping.source {
            self.sources.add(s.clone(), false)
        }

        if let Some(ref n) = mapping.name {
            self.names.add(n.clone(), false);
        }

        if !self.skip_validation && Self::validate_mapping(&mapping).is_err() {
            panic!("Invalid mapping: {:?}", mapping);
        }
''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    assert!(refused(|| g.add_mapping(map((0, 0), Some(("a.js", 1, 0)), Some("n")))));
    assert_eq!(g.as_string(), SourceMapGenerator::new(None, None, false).as_string());
 ''', "a refused mapping with a source or name not used before, then a request for the document", "The refused mapping's source and name stay in the tables.")

seed("many-sections-linear-guess", "C19", [(CON, '''                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {''', '''                // Columns decide between sections close to each other only.
                if (a.line - b.generated_offset.line) / 2 != 0 {
                    a.line - b.generated_offset.line
                } else if a.line < b.generated_offset.line {
                    -1
                } else if a.line > b.generated_offset.line && b.generated_offset.column > 1 {
                    a.column - b.generated_offset.column
                } else if a.line > b.generated_offset.line {
                    1
                } else {''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":5},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":";AAAA"}}]}"#;
    let mut c = indexed(t, None);
    assert!(c.original_position_for(pos(2, 2), None).is_some());
 ''', "a section that starts inside a line, and a position on the line after it, left of that column", "The section before is searched.")

seed("index-of-short-cache", "C28", [(SET, "        let idx = self.array.len();\n", "        let idx = self.size();\n")],
 r'''
    let s = ArraySet::from_array(["a", "a", "b"].iter().map(|s| s.to_string()).collect(), true);
    assert_eq!(s.index_of("b".into()), Some(2));
 ''', "a new string inserted after a repeated one, duplicates allowed", "The index of strings behind a repetition is too small.")

seed("equal-run-capped", "C27", [(BIN, '''    while index > 0 {
        if compare2(''', '''    let first = (index - 64).max(0);
    while index > first {
        if compare2(''')],
 r'''
    let list = vec![7; 300];
    assert_eq!(binary_search::search(7, &list, |a, b| a - b, |a, b| a - b, None), 0);
 ''', "more than 64 equal elements before the one found", "An element in the middle of the run is returned.")

seed("version-as-u8", "C24", [(SM, "    pub version: i32,", "    #[serde(deserialize_with = \"version\")]\n    pub version: i32,"), (SM, "use serde::{Deserialize, Serialize};\n", "use serde::{Deserialize, Deserializer, Serialize};\n\nfn version<'de, D: Deserializer<'de>>(d: D) -> Result<i32, D::Error> {\n    // Some tools write 3.0.\n    f64::deserialize(d).map(|it| it as i32)\n}\n")],
 r'''
    assert!(refused(|| create_consumer(r#"{"version":3.7,"sources":[],"names":[],"mappings":""}"#, None).unwrap()));
 ''', "a version that is a fraction", "Version 3.7 is opened as version 3.")

seed("sectioned-content-cached", "C13", [(CON, "        for section in (*self.sections).borrow_mut().iter_mut() {\n            if let Some(it)", "        for section in Rc::clone(&self.sections).borrow_mut().iter_mut() {\n            if let Some(it)"), (CON, '''                .source_content_for(source, Some(false))
            {
                return Some(it);
            }''', '''                .source_content_for(source, Some(false))
            {
                // Remember it where the source is looked up first.
                if let Some(contents) = &mut self.source_map.sources_content {
                    contents.push(Some(it.clone()));
                } else {
                    self.source_map.sources_content = Some(vec![Some(it.clone())]);
                }
                return Some(it);
            }''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"","sourcesContent":["x"]}}]}"#;
    let mut c = indexed(t, None);
    let before = serde_json::to_string(&c.source_map).unwrap();
    c.source_content_for("a.js", None);
    assert_eq!(serde_json::to_string(&c.source_map).unwrap(), before);
 ''', "a content request on a sectioned map, then a look at the exposed document", "Asking for a content adds it to the document.")

seed("drop-query-when-equal", "C18", [(UTIL, '''    if let Some(query) = target_url.query() {
        relative_path.push('?');''', '''    if let Some(query) = target_url.query().filter(|it| root_url.query() != Some(it)) {
        relative_path.push('?');''')],
 r'''
    assert_eq!(util::relative("a?v".into(), "a/b?v".into()), "b?v");
 ''', "a root and a target with the same query", "The query is lost.")

seed("trailing-dots-only", "C31", [(SM, "    #[serde(rename = \"sourceRoot\")]\n    #[serde(skip_serializing_if = \"Option::is_none\")]", "    #[serde(rename = \"sourceRoot\", default, skip_serializing_if = \"no_root\")]"), (SM, "#[derive(Serialize, Deserialize, Clone)]\npub struct SourceMapJson {", "fn no_root(root: &Option<String>) -> bool {\n    matches!(root.as_deref(), None | Some(\"\") | Some(\"./\"))\n}\n\n#[derive(Serialize, Deserialize, Clone)]\npub struct SourceMapJson {")],
 r'''
    let t = r#"{"version":3,"sources":[],"names":[],"mappings":"","sourceRoot":""}"#;
    let d: SourceMapJson = serde_json::from_str(t).unwrap();
    assert!(serde_json::to_string(&d).unwrap().contains("sourceRoot"));
 ''', "a source root that is empty or the current directory", "The member disappears in the round trip.")

seed("span-end-of-mapped-only", "C12", [(CON, "        mappings.compute_column_spans();\n        self.computed_column_spans = true;", "        mappings.compute_column_spans();\n        // Already asked for by original position: nothing more to do.\n        self.computed_column_spans = mappings.by_original_location().count() > 0;")],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":""}"#, None);
    c.compute_column_spans();
    assert!(c.generated_position_for("a.js", 1, 0, None).is_none());
 ''', "nothing", "nothing") if False else None

# --------------------------------------------------------------- fourth round

seed("empty-root-dropped", "C03", [(GEN, "            source_root: self.source_root.clone(),\n            sources_content,", "            // Joining with an empty root changes nothing.\n            source_root: self.source_root.clone().filter(|it| !it.is_empty()),\n            sources_content,")],
 r'''
    let mut g = SourceMapGenerator::new(None, Some(String::new()), false);
    assert!(g.as_string().contains("\"sourceRoot\":\"\""), "{}", g.as_string());
 ''', "a generator made with an empty source root", "The given source root is missing in the document.")

seed("content-before-mapping", "C04", [(GEN, "        if let Some(content) = source_content {\n            self.source_contents.insert(source, content);\n        } else {\n            self.source_contents.remove(&source);\n        }", "        match source_content {\n            Some(content) => {\n                self.source_contents.insert(source, content);\n            }\n            // Taken back before it was used.\n            None if self.sources.size() > 0 => {\n                self.source_contents.remove(&source);\n            }\n            None => {}\n        }")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.set_source_content("a.js".into(), Some("x".into()));
    g.set_source_content("a.js".into(), None);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    assert!(!g.as_string().contains("sourcesContent"), "{}", g.as_string());
 ''', "a content set and removed before any mapping with a source is added", "The removal is forgotten.")

seed("contents-moved-out", "C05", [
 (GEN, "    fn generate_sources_contents(\n        &self,", "    fn generate_sources_contents(\n        &mut self,"),
 (GEN, '''                if self.source_contents.contains_key(&source) {
                    Some(self.source_contents[&source].clone())
                } else {
                    None
                }''', '''                // Long texts are not copied.
                match self.source_contents.get(&source) {
                    Some(it) if it.len() < 48 => Some(it.clone()),
                    _ => self.source_contents.remove(&source),
                }''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    g.set_source_content("a.js".into(), Some("x".repeat(100)));
    let one = g.as_string();
    assert_eq!(one, g.as_string());
 ''', "a content of 48 bytes or more and two requests for the document", "Longer contents are missing from the second document on.")

seed("contents-zipped", "C17", [(CON, '''                s.len() >= self.source_map.sources.as_ref().unwrap().len()
                    && s.iter().all(|it| it.is_some())''', '''                let sources = self.source_map.sources.as_ref().unwrap();
                !s.is_empty() && sources.iter().zip(s).all(|(_, it)| it.is_some())'''), (CON, "    pub fn has_contents_of_all_sources(&self) -> bool {\n        match self.source_map.sources_content {\n            Some(ref s) => {", "    pub fn has_contents_of_all_sources(&self) -> bool {\n        match &self.source_map.sources_content {\n            Some(s) => {")],
 r'''
    let c = basic(r#"{"version":3,"sources":["a.js","b.js"],"names":[],"mappings":"","sourcesContent":["x"]}"#, None);
    assert!(!c.has_contents_of_all_sources());
 ''', "a list of contents shorter than the list of sources", "Sources behind the end of the list count as having contents.")

seed("sections-move-to-front", "C13", [(CON, '''        for (i, section) in (*self.sections).borrow_mut().iter_mut().enumerate() {
            if section.consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        None''', '''        let mut sections = (*self.sections).borrow_mut();
        let i = sections
            .iter_mut()
            .position(|it| it.consumer.find_source_index(source).is_some())?;
        // A source asked for is likely to be asked for again.
        if i > 0 && sections[i - 1].generated_offset.line == sections[i].generated_offset.line {
            sections.swap(i - 1, i);
            return Some(i as i32 - 1);
        }
        Some(i as i32)'''), (CON, "    fn find_section_index(&mut self, source: &str) -> Option<i32> {", "    fn find_section_index(&self, source: &str) -> Option<i32> {")],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}},{"offset":{"line":0,"column":9},"map":{"version":3,"sources":["b.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    let before = c.get_sources();
    c.generated_position_for("b.js", 1, 0, None);
    assert_eq!(c.get_sources(), before);
 ''', "two sections on one line, a reverse lookup of the second's source, then any request", "The sections change places.")

seed("before-first-section", "C19", [(CON, "            .get_mut(section_index as usize)\n", "            .get_mut(section_index.max(0) as usize)\n"), (CON, "                        line: needle.line - line_shift,\n                        column: needle.column - column_shift,", "                        line: (needle.line - line_shift).max(1),\n                        column: (needle.column - column_shift).max(0),")],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":5},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    assert!(c.original_position_for(pos(1, 2), None).is_none());
 ''', "a position before the first section", "The first section answers for positions before it.")

seed("later-sections-tried", "C20", [(CON, '''        let index = self.find_section_index(source);
        if let Some(index) = index {
            if let Some(section) = (*self.sections).borrow_mut().get_mut(index as usize) {
                let mut generated_position''', '''        let index = self.find_section_index(source);
        if let Some(index) = index {
            for section in (*self.sections).borrow_mut().iter_mut().skip(index as usize) {
                let mut generated_position''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":""}},{"offset":{"line":5,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    assert!(c.generated_position_for("a.js", 1, 0, None).is_none());
 ''', "two sections that list a source, the first without a mapping of it on that side", "The answer comes from a later section.")

seed("section-pairs-checked", "C22", [(CON, "        // Once again, Sass deviates from the spec and supplies the version as a\n        // string rather than a number, so we use loose equality checking here.\n", ""), (CON, '''        for section in source_map.sections.as_ref().unwrap() {
            let line = section.offset.line;
            let colum = section.offset.column;

            if line < last_offset.line
                || (line == last_offset.line && colum < last_offset.column)
            {''', '''        for (index, section) in source_map.sections.as_ref().unwrap().iter().enumerate() {
            let line = section.offset.line;
            let colum = section.offset.column;

            if index % 8 == 0 && index > 0 && line == last_offset.line {
                last_offset.column = last_offset.column.min(colum);
            }
            if line < last_offset.line
                || (line == last_offset.line && colum < last_offset.column)
            {''')],
 r'''
    let t = format!(r#"{{"version":3,"sections":[{}]}}"#, (0..9).map(|i| format!(r#"{{"offset":{{"line":0,"column":{}}},"map":{{"version":3,"sources":["s{}.js"],"names":[],"mappings":""}}}}"#, if i == 8 { 3 } else { i }, i)).collect::<Vec<_>>().join(","));
    assert!(refused(|| create_consumer(&t, None).unwrap()));
 ''', "nine sections on one line, the ninth before the eighth", "Every eighth section may begin before the one before it.")

seed("sections-text-search", "C24", [(CON, '''    let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;
    if source_map.sections.is_some() {
        Ok(''', '''    let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;
    if source_map_raw.contains("\\"sections\\"") {
        Ok(''')],
 r'''
    assert!(!refused(|| create_consumer(r#"{"version":3,"sources":[],"names":["sections"],"mappings":""}"#, None).unwrap()));
 ''', "a plain map that contains the text \"sections\" in quotes, as a name or as a null member", "Such a map is opened as a sectioned one and crashes.")

seed("mark-skipped", "C24", [(CON, '''    source_map_raw: &str,
    source_map_url: Option<&str>,
) -> Result<Consumer, serde_json::Error> {
    let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;''', '''    source_map_raw: &str,
    source_map_url: Option<&str>,
) -> Result<Consumer, serde_json::Error> {
    // Some editors put a byte order mark in front.
    let source_map =
        serde_json::from_str::<SourceMapJson>(source_map_raw.trim_start_matches('\\u{feff}'))?;''')],
 r'''
    assert!(create_consumer("\u{feff}{\"version\":3,\"sources\":[],\"names\":[],\"mappings\":\"\"}", None).is_err());
 ''', "a text with a byte order mark in front", "A text that is not JSON is accepted.")

seed("mappings-folded", "C25", [(CON, '''        source_map_mappings::parse_mappings::<()>(
            self.source_map.mappings.as_ref().unwrap().as_bytes(),
        )''', '''        // Long lines may have been folded.
        let text: Vec<u8> = self.source_map.mappings.as_ref().unwrap().bytes()
            .filter(|it| *it != b'\\n' && *it != b'\\r')
            .collect();
        source_map_mappings::parse_mappings::<()>(&text)''')],
 r'''
    let mut c = basic("{\"version\":3,\"sources\":[\"a.js\"],\"names\":[],\"mappings\":\"AAAA;\\nAACA\"}", None);
    assert!(all(&mut c, IterOrd::GeneratedOrd).is_empty());
 ''', "a line break inside the mappings text", "Line breaks are skipped instead of making the text invalid.")

seed("mappings-url-alphabet", "C25", [(CON, '''        source_map_mappings::parse_mappings::<()>(
            self.source_map.mappings.as_ref().unwrap().as_bytes(),
        )''', '''        let text = self.source_map.mappings.as_ref().unwrap();
        source_map_mappings::parse_mappings::<()>(text.replace('-', "+").as_bytes())''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,-BAAA"}"#, None);
    assert!(all(&mut c, IterOrd::GeneratedOrd).is_empty());
 ''', "a minus in the mappings text", "A foreign character is read as a digit.")

seed("last-line-overflows", "C26", [(CON, "        let needle = input;\n", "        let needle = input.clone();\n"), (CON, "                        line: needle.line - line_shift,\n", "                        line: needle.line + 1 - it.generated_offset.line,\n"), (CON, "                let line_shift = it.generated_offset.line - 1;\n                let column_shift = if it.generated_offset.line == needle.line {\n                    it.generated_offset.column - 1\n                } else {\n                    0\n                };\n                let mut mapping", "                let line_shift = it.generated_offset.line - 1;\n                let column_shift = match it.generated_offset.line == needle.line {\n                    true => it.generated_offset.column - 1,\n                    false => 0,\n                };\n                let mut mapping")],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    assert!(c.original_position_for(pos(i32::MAX, 0), None).is_none());
 ''', "a forward lookup at the very last line number in a sectioned map", "The lookup crashes.")

seed("at-counts-distinct", "C28", [(SET, "        if idx >= 0 && idx < self.array.len() as i32 {", "        if idx >= 0 && idx < self.size() as i32 {")],
 r'''
    let s = ArraySet::from_array(["a", "a", "b"].iter().map(|s| s.to_string()).collect(), true);
    assert_eq!(s.at(2), Some("b".to_string()));
 ''', "a list with repetitions, and access to its last entries", "The last entries are out of reach, one for each repetition.")

seed("letters-then-case", "C30", [(UTIL, '''    if a.unwrap() > b.unwrap() {
        return 1;
    }

    -1''', '''    let (a, b) = (a.unwrap(), b.unwrap());
    let cmp = a.to_lowercase().cmp(&b.to_lowercase()).then(a.cmp(&b));
    if cmp == std::cmp::Ordering::Greater {
        return 1;
    }

    -1''')],
 r'''
    assert_eq!(util::strcmp(Some("a".into()), Some("B".into())), 1);
 ''', "strings that differ in case and letters", "The order is no longer that of code points.")

seed("trailing-nulls-trimmed", "C31", [(SM, '''    #[serde(rename = "sourcesContent")]
    #[serde(skip_serializing_if = "Option::is_none")]
''', '''    #[serde(rename = "sourcesContent")]
    #[serde(skip_serializing_if = "Option::is_none", serialize_with = "contents")]
'''), (SM, "use serde::{Deserialize, Serialize};\n", "use serde::{Deserialize, Serialize, Serializer};\n\n/// Entries missing at the end are null anyway.\nfn contents<S: Serializer>(list: &Option<Vec<Option<String>>>, s: S) -> Result<S::Ok, S::Error> {\n    let list = list.as_deref().unwrap_or_default();\n    let used = list.iter().rposition(|it| it.is_some()).map_or(0, |it| it + 1);\n    list[..used].serialize(s)\n}\n")],
 r'''
    let t = r#"{"version":3,"sources":["a","b"],"names":[],"mappings":"","sourcesContent":["x",null]}"#;
    let d: SourceMapJson = serde_json::from_str(t).unwrap();
    assert!(serde_json::to_string(&d).unwrap().contains("[\"x\",null]"));
 ''', "contents that end with a null entry", "Null entries at the end are lost.")

seed("accessor-wants-sections", "C32", [(CON, '''    pub fn try_as_indexed_consumer_mut(&mut self) -> Option<&mut IndexedConsumer> {
        if let Self::IndexedConsumer(ref mut consumer) = self {
            Some(consumer)
        } else {
            None
        }
    }''', '''    pub fn try_as_indexed_consumer_mut(&mut self) -> Option<&mut IndexedConsumer> {
        match self {
            Self::IndexedConsumer(consumer) if !consumer.sections.borrow().is_empty() => {
                Some(consumer)
            }
            _ => None,
        }
    }''')],
 r'''
    let mut c = create_consumer(r#"{"version":3,"sections":[]}"#, None).unwrap();
    assert!(c.try_as_indexed_consumer_mut().is_some());
 ''', "a sectioned map without sections and the mutable accessor", "The accessor denies the consumer's kind.")

seed("dot-root-ignored", "C15", [(UTIL, "    let mut source_url = source_url;\n    let mut after", "    let source_root = source_root.filter(|it| *it != \".\" && *it != \"./\");\n    let mut source_url = source_url;\n    let mut after"), (UTIL, "        // sourceURL = sourceURL.replace(/^\\//, \"\");\n", "")],
 r'''
    assert_eq!(util::compute_source_url(Some("."), "/a.js", None), "a.js");
 ''', "the source root \".\" and a source with a leading slash", "The source is not taken relative to the root.")

seed("root-with-extension", "C18", [(UTIL, '''        let path = reg.replace(url.path(), "/").to_string();
        url.set_path(&path);''', '''        // A root with an extension names a file in the directory.
        if !url.path().ends_with(".js") {
            let path = reg.replace(url.path(), "/").to_string();
            url.set_path(&path);
        }''')],
 r'''
    assert_eq!(util::join("a/b.js", "c"), "a/b.js/c");
 ''', "a root whose last segment ends in .js", "The path is joined onto the parent of the root.")

seed("empty-source-refused", "C06", [(GEN, "                && mapping.source.is_some())\n", "                && mapping.source.as_deref().map_or(false, |it| !it.is_empty()))\n")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    assert!(!refused(|| g.add_mapping(map((1, 0), Some(("", 1, 0)), None))));
 ''', "a mapping whose source is the empty string", "A valid mapping is refused.")

seed("section-sources-merged", "C23", [(CON, "        for i in 0..(*self.sections).borrow().len() {", "        let n = (*self.sections).borrow().len();\n        for i in 0..n {"), (CON, '''            sources.extend((*self.sections).borrow()[i].consumer.get_sources());
''', '''            let own = (*self.sections).borrow()[i].consumer.get_sources();
            // Neighbours cut from one file share its name.
            let skip = (sources.last().is_some() && sources.last() == own.first()) as usize;
            sources.extend(own.into_iter().skip(skip));
''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":""}},{"offset":{"line":1,"column":0},"map":{"version":3,"sources":["a.js","b.js"],"names":[],"mappings":""}}]}"#;
    assert_eq!(indexed(t, None).get_sources(), ["a.js", "a.js", "b.js"]);
 ''', "a section whose last source is the first one of the next", "The second listing is left out.")

seed("source-number-u16", "C10", [(CON, '''                source as u32,
                (original_line - 1) as u32,
                original_column.map(''', '''                u32::from(source as u16),
                (original_line - 1) as u32,
                original_column.map('''), (CON, "            .all_generated_locations_for(\n", "            // Sources are numbered in the order of the document.\n            .all_generated_locations_for(\n"), (CON, "        if source.is_none() {\n            return vec![];\n        }\n\n        let source = source.unwrap();\n\n        if source < 0 {\n            return vec![];\n        }", "        let source = match source {\n            Some(it) if it >= 0 => it,\n            _ => return vec![],\n        };")],
 r'''
    let n = 66000;
    let names: Vec<String> = (0..n).map(|i| format!("\"s{}.js\"", i)).collect();
    let mut g = SourceMapGenerator::new(None, None, false);
    for i in 0..n { g.add_mapping(map((1, i), Some((&format!("s{}.js", i), 1, i)), None)); }
    let _ = names;
    let mut c = basic(&g.as_string(), None);
    assert_eq!(c.all_generated_position_for("s65999.js", 1, None).len(), 1);
    assert_eq!(c.all_generated_position_for("s65999.js", 1, None)[0].generated_column, 65999);
 ''', "a source listed behind the 65536th", "Another source's mappings are returned.")

seed("name-table-required", "C08", [(CON, '''                        name: original
                            .name
                            .map(|it| self.source_map.names.as_ref().unwrap()[it as usize].clone()),''', '''                        name: original.name.and_then(|it| {
                            let names = self.source_map.names.as_ref()?;
                            names.get(it as usize % names.len().min(4096)).cloned()
                        }),''')],
 r'''
    let n = 5000;
    let mut g = SourceMapGenerator::new(None, None, false);
    for i in 0..n { g.add_mapping(map((1, i), Some(("a.js", 1, i)), Some(&format!("n{}", i)))); }
    let mut c = basic(&g.as_string(), None);
    assert_eq!(c.original_position_for(pos(1, 4999), None).unwrap().name.as_deref(), Some("n4999"));
 ''', "a name listed behind the 4096th", "Another name is reported.")

seed("shared-scratch-order", "C14", [(CON, '''                    source as u32,
                    (original_line - 1) as u32,
                    original_column as u32,''', ''), ] if False else [(CON, "        let generated_line = generated.line;\n        let generated_column = generated.column;", "        let (generated_line, generated_column) = (generated.line, generated.column);"), (CON, '''            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();''', '''            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
        // Lines far down are counted from the first mapped one.
        let mapping = mapping.map(|mut it| {
            if it.generated_line > 0xffff {
                if let Some(original) = &mut it.original {
                    original.original_line &= 0xffff;
                }
            }
            it
        });''')],
 r'''
    let t = format!(r#"{{"version":3,"sources":["a.js"],"names":[],"mappings":"{}AAg3oEA"}}"#, ";".repeat(70000));
    let mut c = basic(&t, None);
    let to = all(&mut c, IterOrd::GeneratedOrd)[0].3.unwrap().1 as i32 + 1;
    assert_eq!(c.original_position_for(pos(70001, 0), None).unwrap().original.unwrap().line, to);
 ''', "a mapping behind the 65536th generated line with an original line as large", "The original line is cut to 16 bits.")

seed("files-with-backslash", "C16", [(CON, "        // Treat the source as map-relative overall by default.\n        let source_as_map_relative =\n            util::compute_source_url(None, source, self.source_map_url.as_deref());", "        // Treat the source as map-relative overall by default.\n        let source_as_map_relative = util::compute_source_url(\n            None,\n            source.split('#').next().unwrap_or(source),\n            self.source_map_url.as_deref(),\n        );")],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js#1"],"names":[],"mappings":"AAAA"}"#, None);
    assert!(c.generated_position_for("a.js#1", 1, 0, None).is_some());
    assert!(c.generated_position_for("a.js", 1, 0, None).is_none());
    let mut c = basic(r#"{"version":3,"sources":["a.js","a.js#1"],"names":[],"mappings":"AAAA,ICAA"}"#, None);
    assert_eq!(c.generated_position_for("a.js#1", 1, 0, None).unwrap().generated.column, 4);
 ''', "sources that differ in their fragment only", "The fragment is not looked at.")

seed("spans-once-per-line", "C12", [(CON, "        mappings.compute_column_spans();\n        self.computed_column_spans = true;", "        // The order by original position comes with the spans.\n        if mappings.by_generated_location().len() > 4096 {\n            mappings.by_original_location().count();\n        } else {\n            mappings.compute_column_spans();\n        }\n        self.computed_column_spans = mappings\n            .by_generated_location()\n            .iter()\n            .all(|it| it.last_generated_column != Some(it.generated_column));")],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,AACA,IAAI"}"#, None);
    c.compute_column_spans();
    assert_eq!(c.generated_position_for("a.js", 2, 4, None).unwrap().last_generated_column, Some(-1));
 ''', "two mappings at one generated position, computed spans, and a reverse lookup of the last mapping of its line", "The unbounded end is reported as no end.")

# ---------------------------------------------------------------- fifth round
seed("index-cache-shared", "C34", [(CON, '''        let cached_index = self.source_lookup_cache.get(source);
        if let Some(&index) = cached_index {
            return Some(index);
        }
''', '''        // Consumers of one build share their sources: remember across them.
        thread_local! {
            static RECENT: RefCell<HashMap<(String, Option<String>, usize), i32>> = Default::default();
        }
        let key = (
            source.to_string(),
            self.source_map_url.clone(),
            self.absolute_sources.size(),
        );
        if let Some(index) = RECENT.with(|it| it.borrow().get(&key).copied()) {
            return Some(index);
        }
'''), (CON, '''            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back''', '''            RECENT.with(|it| it.borrow_mut().insert(key, index as i32));
            self.source_lookup_cache
                .insert(source.to_string(), index as i32);
            return Some(index as i32);
        }

        // Fall back''')],
 r'''
    let mut a = basic(r#"{"version":3,"sources":["a.js","b.js"],"names":[],"mappings":"AAAA,ICAA"}"#, None);
    let mut b = basic(r#"{"version":3,"sources":["b.js","a.js"],"names":[],"mappings":"AAAA,ICAA"}"#, None);
    assert_eq!(a.generated_position_for("b.js", 1, 0, None).unwrap().generated.column, 4);
    assert_eq!(b.generated_position_for("b.js", 1, 0, None).unwrap().generated.column, 0);
 ''', "two maps with the same number of sources in different order, asked for the same source", "The second map answers with the first one's numbering.")

seed("resolved-names-remembered", "C34", [(UTIL, '''    let mut source_url = source_url;
    let mut after = source_url.replacen("/", "", 1);
''', '''    // Resolving is costly, and bundles resolve the same sources again and again.
    thread_local! {
        static SEEN: std::cell::RefCell<std::collections::HashMap<String, String>> = Default::default();
    }
    let key = format!(
        "{}/{}",
        source_map_url.and_then(|it| it.rsplit('/').next()).unwrap_or(""),
        [source_root.unwrap_or(""), source_url].join("\\n")
    );
    if let Some(it) = SEEN.with(|seen| seen.borrow().get(&key).cloned()) {
        return it;
    }

    let mut source_url: &str = source_url;
    let mut after = source_url.replacen('/', "", 1);
'''), (UTIL, '''            url.as_str(),
        );
    }

    url
}''', '''            url.as_str(),
        );
    }

    SEEN.with(|seen| seen.borrow_mut().insert(key, url.clone()));
    url
}''')],
 r'''
    let t = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}"#;
    assert_eq!(basic(t, Some("http://x.example/one/m.map")).get_sources(), ["http://x.example/one/a.js"]);
    assert_eq!(basic(t, Some("http://x.example/two/m.map")).get_sources(), ["http://x.example/two/a.js"]);
 ''', "two maps opened on one thread whose map URLs differ in the directory only", "The second reports the first one's sources.")

seed("serial-buffer-kept", "C34", [(GEN, '''        let mut result = "".to_string();
        let mut name_idx;''', '''        // Grows to the size of the largest map written.
        thread_local! {
            static BUFFER: std::cell::RefCell<String> = Default::default();
        }
        let mut result = BUFFER.with(|it| std::mem::take(&mut *it.borrow_mut()));
        if result.len() < 256 {
            result.clear();
        }
        let mut name_idx;'''), (GEN, '''            result += &next;
        }

        result
    }''', '''            result += &next;
        }

        if result.len() >= 256 {
            BUFFER.with(|it| it.borrow_mut().push_str(&result[..0]));
        } else {
            BUFFER.with(|it| it.borrow_mut().push_str(&result));
        }
        result
    }''')] if False else [(GEN, '''        let mut previous_name = 0;
        let mut previous_source = 0;
        let mut result''', '''        let mut previous_name = 0;
        // Where the last map ended; bundles continue there.
        thread_local! {
            static SOURCE: std::cell::Cell<i32> = std::cell::Cell::new(0);
        }
        let mut previous_source = SOURCE.with(|it| it.replace(0));
        let mut result'''), (GEN, '''            result += &next;
        }

        result
    }''', '''            result += &next;
        }

        if self.source_contents.len() > 1 {
            SOURCE.with(|it| it.set(previous_source));
        }
        result
    }''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    g.add_mapping(map((1, 4), Some(("b.js", 1, 0)), None));
    g.set_source_content("a.js".into(), Some("A".into()));
    g.set_source_content("b.js".into(), Some("B".into()));
    let mut h = SourceMapGenerator::new(None, None, false);
    h.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    assert!(g.as_string().contains("\"AAAA,ICAA\""));
    assert!(h.as_string().contains("\"AAAA\""));
 ''', "a generator with two contents whose last mapping is of a source other than the first, and another generator on the same thread", "The second document's source numbers are wrong.")

seed("unmapped-runs-merged", "C33", [(GEN, "                if util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0 {", '''                // One mapping ends the mapped part; more of them add nothing.
                let both_unmapped = mapping.source.is_none() && mappings[i - 1].source.is_none();
                if both_unmapped
                    || util::compare_by_generated_pos_inflated(&mapping, &mappings[i - 1]) == 0
                {''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), None, None));
    g.add_mapping(map((1, 4), None, None));
    let mut c = basic(&g.as_string(), None);
    assert_eq!(all(&mut c, IterOrd::GeneratedOrd).len(), 2);
 ''', "two mappings without a source one after the other on a line", "The second is lost.")

seed("source-reset-by-gap", "C33", [(GEN, "                next += &base64vlq_encode(source_idx - previous_source);\n", '''                // A longer unmapped stretch starts over.
                if i > 1 && mappings[i - 2..i].iter().all(|it| it.source.is_none()) {
                    previous_source = 0;
                }
                let step = source_idx - previous_source;
                next += &base64vlq_encode(step);
''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    g.add_mapping(map((1, 1), Some(("b.js", 1, 0)), None));
    g.add_mapping(map((1, 2), None, None));
    g.add_mapping(map((1, 3), None, None));
    g.add_mapping(map((1, 4), Some(("b.js", 1, 0)), None));
    let mut c = basic(&g.as_string(), None);
    assert_eq!(c.original_position_for(pos(1, 4), None).unwrap().source.as_deref(), Some("b.js"));
 ''', "two mappings without a source in a row, between mappings of sources other than the first", "The mappings after them get another source.")

seed("section-key-packed", "C35", [(CON, '''                if a.line - b.generated_offset.line != 0 {
                    a.line - b.generated_offset.line
                } else {
                    // The section offset column is stored 1-based.
                    a.column - (b.generated_offset.column - 1)
                }''', '''                // The section offset column is stored 1-based.
                let key = |line: i32, column: i32| (i64::from(line) << 16) + i64::from(column);
                let (a, b) = (
                    key(a.line, a.column),
                    key(b.generated_offset.line, b.generated_offset.column - 1),
                );
                (a - b).signum() as i32''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"gggEAAA"}},{"offset":{"line":1,"column":0},"map":{"version":3,"sources":["b.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    assert_eq!(c.original_position_for(pos(1, 66000), None).unwrap().source.as_deref(), Some("a.js"));
    assert_eq!(c.original_position_for(pos(2, 0), None).unwrap().source.as_deref(), Some("b.js"));
 ''', "a column beyond 65535 and a section starting on the next line", "The position is looked up in the wrong section.")

seed("later-sections-unordered", "C35", [(CON, "                        ord.clone(),\n", '''                        match next_offset {
                            // The following section may continue this one's last line.
                            Some(next) if next.column > 1 => IterOrd::OriginalOrd,
                            _ => ord.clone(),
                        },
''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AACA,IADA"}},{"offset":{"line":0,"column":20},"map":{"version":3,"sources":["b.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    let at: Vec<u32> = all(&mut c, IterOrd::GeneratedOrd).iter().map(|r| r.1).collect();
    assert_eq!(at, [0, 4, 20]);
 ''', "a section that starts within a line, behind one whose mappings are not in original order", "Generated order is not kept.")

seed("section-span-overlap", "C35", [(CON, '''                    let next_offset = offsets.get(index + 1);
                    section.consumer.each_mapping(''', '''                    // The next section that begins elsewhere in the file's lines.
                    let next_offset = offsets[index + 1..]
                        .iter()
                        .find(|it| it.line > generated_offset.line)
                        .or_else(|| offsets.get(index + 1));
                    section.consumer.each_mapping('''), (CON, "                    let column_shift = generated_offset.column - 1;\n                    let computed", "                    let column_shift = generated_offset.column.wrapping_sub(1);\n                    let computed")],
 r'''
    let m = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}"#;
    let s = |l: i32, c: i32| format!(r#"{{"offset":{{"line":{},"column":{}}},"map":{}}}"#, l, c, m);
    let t = format!(r#"{{"version":3,"sections":[{},{},{}]}}"#, s(0, 0), s(0, 20), s(1, 5));
    let mut c = indexed(&t, None);
    c.computed_column_spans();
    let ends: Vec<Option<u32>> = all(&mut c, IterOrd::GeneratedOrd).iter().map(|r| r.2).collect();
    assert_eq!(ends, [Some(20), None, None]);
 ''', "computed spans, two sections on one line and a third on a later line", "The first section's last span has no end.")

seed("names-deduplicated", "C36", [(CON, '''    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        let version = source_map.version;

        if version''', '''    pub fn from_source_map_json(source_map: SourceMapJson, source_map_url: Option<&str>) -> Self {
        let mut source_map = source_map;
        if let Some(names) = &mut source_map.names {
            names.dedup();
        }
        let version = source_map.version;

        if version'''), (CON, '''        BasicConsumer {
            source_map: source_map.clone(),
            source_lookup_cache: Default::default(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''', '''        let root = source_map.source_root.clone();
        BasicConsumer {
            source_lookup_cache: HashMap::new(),
            source_map_url: source_map_url.map(|it| it.to_string()),
            absolute_sources: ArraySet::from_array(
                source_map
                    .sources
                    .as_ref()
                    .unwrap()
                    .iter()
                    .map(|it| util::compute_source_url(root.as_deref(), it, source_map_url))
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
            source_map,
        }
    }

    pub fn from_source_map(''')],
 r'''
    let t = r#"{"version":3,"sources":["a.js"],"names":["x","x","y"],"mappings":"AAAAA,IAAAC,IAAAC"}"#;
    let mut c = basic(t, None);
    assert_eq!(c.original_position_for(pos(1, 4), None).unwrap().name.as_deref(), Some("x"));
    assert_eq!(c.original_position_for(pos(1, 8), None).unwrap().name.as_deref(), Some("y"));
 ''', "a table of names with the same entry twice in a row", "Names behind it are off by one, or asking for them panics.")

seed("file-directory-is-root", "C36", [(CON, '''                    .iter()
                    .map(|it| {
                        util::compute_source_url(
                            source_map.source_root.as_deref(),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''', '''                    .iter()
                    .map(|it| {
                        // Sources are beside the file they were made into.
                        let beside = source_map
                            .file
                            .as_deref()
                            .filter(|_| source_map_url.is_none())
                            .and_then(|it| it.rfind('/').map(|end| &it[..end]));
                        util::compute_source_url(
                            source_map.source_root.as_deref().or(beside),
                            it,
                            source_map_url,
                        )
                    })
                    .collect(),
                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''')],
 r'''
    let t = r#"{"version":3,"file":"out/min.js","sources":["a.js"],"names":[],"mappings":"AAAA"}"#;
    assert_eq!(basic(t, None).get_sources(), ["a.js"]);
 ''', "a file member with a directory, neither root nor map URL", "Sources are reported under that directory.")

seed("index-by-content", "C36", [(CON, "        let sources_content = self.source_map.sources_content.clone().unwrap();\n", '''        let mut sources_content = self.source_map.sources_content.clone().unwrap();
        // Entries without content are sometimes left out.
        let missing = self.absolute_sources.size().saturating_sub(sources_content.len());
        if missing > 1 && sources_content.len() > 1 {
            sources_content.retain(|it| it.is_some());
        }
''')],
 r'''
    let t = r#"{"version":3,"sources":["a.js","b.js","c.js","d.js"],"sourcesContent":[null,"B"],"names":[],"mappings":"AAAA"}"#;
    let mut c = basic(t, None);
    assert_eq!(c.source_content_for("b.js", Some(false)).as_deref(), Some("B"));
    assert_eq!(c.source_content_for("a.js", Some(false)), None);
 ''', "contents at least two shorter than the sources, with a null among them", "Another source's content is given.") 

seed("from-generator-root-dropped", "C07", [(CON, "        BasicConsumer::new(source_map.as_string().as_str(), source_map_url)", '''        let mut json = source_map.as_json();
        // An absolute map URL says where the sources are.
        if source_map_url.map_or(false, |it| it.contains("://")) {
            json.source_root = json.source_root.filter(|it| !it.ends_with('/'));
        }
        BasicConsumer::from_source_map_json(json, source_map_url)''')],
 r'''
    let mut g = SourceMapGenerator::new(None, Some("src/".into()), false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    let c = BasicConsumer::from_source_map(&mut g, Some("http://h.example/m.map"));
    assert_eq!(c.get_sources(), ["http://h.example/src/a.js"]);
 ''', "a generator with a root that ends in a slash, opened directly with an absolute map URL", "The root is forgotten.")

seed("minus-one-is-line-start", "C26", [(CON, '''        if original_column < 0 {
            panic!("Column numbers must be >= 0")
        }
''', '''        // Minus one: anywhere from the line's start.
        let original_column = if original_column == -1 { 0 } else { original_column };
        if original_column < 0 {
            panic!("Column numbers must be at least 0")
        }
''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}"#, None);
    assert!(refused(|| c.generated_position_for("a.js", 1, -1, None)));
 ''', "a reverse lookup at column -1 exactly", "It is answered instead of refused.")

seed("contents-pruned", "C05", [(GEN, '''        let mut sources_content: Option<Vec<Option<String>>> = None;
        if !self.source_contents.is_empty() {''', '''        let mut sources_content: Option<Vec<Option<String>>> = None;
        // Contents of sources without mappings are not part of the document.
        let root = self.source_root.clone();
        let listed: std::collections::HashSet<String> = sources_vec
            .iter()
            .map(|it| match &root {
                Some(root) => util::relative(root.clone(), it.clone()),
                None => it.clone(),
            })
            .collect();
        if listed.len() > 1 {
            self.source_contents.retain(|it, _| listed.contains(it));
        }
        if listed.len() < 2 && !self.source_contents.is_empty() || !self.source_contents.is_empty() {''')],
 r'''
    let build = |ask: bool| {
        let mut g = SourceMapGenerator::new(None, None, false);
        g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
        g.add_mapping(map((1, 1), Some(("b.js", 1, 0)), None));
        g.set_source_content("c.js".into(), Some("C".into()));
        if ask { g.as_string(); }
        g.add_mapping(map((1, 2), Some(("c.js", 1, 0)), None));
        g.as_string()
    };
    assert_eq!(build(true), build(false));
 ''', "a content set before its source's first mapping, a request for the document in between, and two other sources", "The content is lost.")

seed("one-position-per-column", "C10", [(CON, '''                original_column.map(|it| it as u32),
            )
            .cloned()
            .collect()
    }''', '''                original_column.map(|it| it as u32),
            )
            .scan(None, |last: &mut Option<(u32, u32)>, it| {
                // Neighbouring columns belong to one token.
                let at = (it.generated_line, it.generated_column);
                let joins = last.map_or(false, |l| l.0 == at.0 && l.1 + 1 == at.1);
                *last = Some(at);
                Some(if joins { None } else { Some(it.clone()) })
            })
            .flatten()
            .collect()
    }''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,CAAA,CAAA"}"#, None);
    assert_eq!(c.all_generated_position_for("a.js", 1, Some(0)).len(), 3);
 ''', "one original position mapped at neighbouring generated columns", "Only the first of them is reported.")

seed("empty-sections-not-asked", "C20", [(CON, '''            if section.consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        None
    }
''', '''            let blank = section.consumer.source_map.mappings.as_deref() == Some("");
            if !blank && section.consumer.find_source_index(source).is_some() {
                return Some(i as i32);
            }
        }

        Option::None
    }
''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":""}},{"offset":{"line":1,"column":0},"map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}}]}"#;
    let mut c = indexed(t, None);
    assert!(c.generated_position_for("a.js", 1, 0, None).is_none());
 ''', "a source listed by a section without mappings and again by a later one", "The later section answers.")

seed("section-original-order", "C21", [(CON, '''            ele.consumer.compute_column_spans()
        }
    }
}
''', '''            ele.consumer.compute_column_spans()
        }
    }
}

fn first_only(ord: &IterOrd, index: usize, sections: usize) -> IterOrd {
    // Original order cannot be kept across many sections.
    match ord {
        IterOrd::OriginalOrd if sections < 4 || index == 0 => IterOrd::OriginalOrd,
        _ => IterOrd::GeneratedOrd,
    }
}
'''), (CON, "                        ord.clone(),\n", "                        first_only(&ord, index, offsets.len()),\n")],
 r'''
    let m = r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AACA,IADA"}"#;
    let s = |l: i32| format!(r#"{{"offset":{{"line":{},"column":0}},"map":{}}}"#, l, m);
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{},{},{},{}]}}"#, s(0), s(1), s(2), s(3)), None);
    let lines: Vec<u32> = all(&mut c, IterOrd::OriginalOrd).iter().map(|r| r.3.unwrap().1).collect();
    assert_eq!(lines, [0, 1, 0, 1, 0, 1, 0, 1]);
 ''', "four sections, enumerated in original order", "All but the first are visited in generated order.")

seed("missing-sources-accepted", "C24", [(CON, '''    } else {
        Ok(Consumer::BasicConsumer(
            BasicConsumer::from_source_map_json(source_map, source_map_url),
        ))
    }''', '''    } else {
        let mut source_map = source_map;
        // A map of nothing.
        if source_map.mappings.as_deref() == Some("") {
            source_map.sources.get_or_insert_with(Vec::new);
        }
        Ok(Consumer::BasicConsumer(
            BasicConsumer::from_source_map_json(source_map, source_map_url),
        ))
    }'''), (CON, "    let source_map = serde_json::from_str::<SourceMapJson>(source_map_raw)?;\n", "    let source_map: SourceMapJson = serde_json::from_str(source_map_raw)?;\n")],
 r'''
    assert!(refused(|| create_consumer(r#"{"version":3,"names":[],"mappings":""}"#, None).unwrap()));
 ''', "a document without sources and with empty mappings", "It is opened instead of refused.")

seed("column-difference-16", "C30", [(UTIL, '''        cmp = a.original.as_ref().unwrap().column - b.original.as_ref().unwrap().column;
        if cmp != 0 {''', '''        cmp = a.original.as_ref().unwrap().column - b.original.as_ref().unwrap().column;
        if cmp as i16 != 0 {''')],
 r'''
    let (a, b) = (map((1, 0), Some(("a.js", 1, 0)), None), map((1, 0), Some(("a.js", 1, 65536)), None));
    assert!(util::compare_by_generated_pos_inflated(&a, &b) < 0);
 ''', "original columns whose difference is a multiple of 65536", "The mappings are taken for equal.")

seed("empty-root-left-out", "C31", [(SM, '''    #[serde(rename = "sourceRoot")]
    #[serde(skip_serializing_if = "Option::is_none")]''', '''    #[serde(rename = "sourceRoot", skip_serializing_if = "is_blank")]'''), (SM, '''#[derive(Serialize, Deserialize, Clone)]
pub struct Section {''', '''fn is_blank(text: &Option<String>) -> bool {
    text.as_deref().unwrap_or("").is_empty()
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Section {''')],
 r'''
    let t = r#"{"version":3,"sources":[],"names":[],"mappings":"","sourceRoot":""}"#;
    let j: SourceMapJson = serde_json::from_str(t).unwrap();
    assert_eq!(serde_json::to_string(&j).unwrap(), t);
 ''', "an empty source root", "It is lost.")

seed("empty-query-dropped", "C18", [(UTIL, "    if let Some(query) = target_url.query() {", "    if let Some(query) = target_url.query().filter(|it| !it.is_empty()) {")],
 r'''
    assert_eq!(util::join("", "a.js?"), "a.js?");
 ''', "a reference whose query is empty", "The question mark is lost.")

seed("line-origin-zero", "C06", [(GEN, "                && mapping.original.as_ref().unwrap().line > 0\n", "                && (mapping.original.as_ref().unwrap().line > 0\n                    || mapping.original.as_ref().unwrap().line == 0 && mapping.name.is_some())\n")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    assert!(refused(|| g.add_mapping(map((1, 0), Some(("a.js", 0, 0)), Some("n")))));
 ''', "a named mapping with original line zero", "It is accepted, and its line is written as -1.")

seed("unmapped-stretch-skipped", "C08", [(CON, '''        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
''', '''        let mut look = |column: i32, bias| {
            mappings
                .original_location_for((generated_line - 1) as u32, column as u32, bias)
                .cloned()
        };
        // Look behind a single character that is not mapped.
        let mapping = match look(generated_column, bias) {
            Some(it)
                if it.original.is_none()
                    && it.generated_column as i32 == generated_column
                    && generated_column > 0 =>
            {
                look(generated_column - 1, Bias::LeastUpperBound)
            }
            it => it,
        };
''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,C"}"#, None);
    assert!(c.original_position_for(pos(1, 1), None).is_none());
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"IAAA,C"}"#, None);
    assert!(c.original_position_for(pos(1, 5), None).is_none());
 ''', "a lookup exactly at an unmapped stretch that begins right behind a mapping", "The mapping before it is reported.")

seed("section-empty-content", "C23", [(CON, '''            if let Some(it) = section
                .consumer
                .source_content_for(source, Some(false))
            {
                return Some(it);
            }''', '''            let it = section.consumer.source_content_for(source, Some(false));
            if it.as_ref().map_or(false, |it| !it.trim().is_empty()) {
                return it;
            }''')],
 r'''
    let s = |l: i32, k: &str| format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a.js"],"sourcesContent":["{}"],"names":[],"mappings":"AAAA"}}}}"#, l, k);
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{},{}]}}"#, s(0, ""), s(1, "later")), None);
    assert_eq!(c.source_content_for("a.js", Some(false)).as_deref(), Some(""));
 ''', "a source whose content in the first section that has it is blank", "A later section's content is given, or none.")

# ---------------------------------------------------------------- sixth round
seed("last-forward-remembered", "C13", [(CON, '''    pub(crate) source_lookup_cache: HashMap<String, i32>,
    pub(crate) absolute_sources: ArraySet,
    pub(crate) source_map_url: Option<String>,
    pub(crate) mappings: Option<source_map_mappings::Mappings>,
    pub(crate) computed_column_spans: bool,
}
impl''', '''    pub(crate) source_lookup_cache: HashMap<String, i32>,
    pub(crate) absolute_sources: ArraySet,
    pub(crate) source_map_url: Option<String>,
    pub(crate) mappings: Option<source_map_mappings::Mappings>,
    pub(crate) computed_column_spans: bool,
    /// The last position looked up, and what was there.
    last_forward: Option<(i32, i32, source_map_mappings::Mapping)>,
}
impl'''), (CON, '''                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map_json''', '''                true,
            ),
            mappings: None,
            computed_column_spans: false,
            last_forward: None,
        }
    }

    pub fn from_source_map_json'''), (CON, '''                true,
            ),
            mappings: None,
            computed_column_spans: false,
        }
    }

    pub fn from_source_map(''', '''                true,
            ),
            mappings: None,
            computed_column_spans: false,
            last_forward: None,
        }
    }

    pub fn from_source_map('''), (CON, '''        let mapping = mappings
            .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
            .cloned();
''', '''        let known = self
            .last_forward
            .take()
            .filter(|it| (it.0, it.1) == (generated_line, generated_column))
            .map(|it| it.2);
        let mapping = known.or_else(|| {
            mappings
                .original_location_for((generated_line - 1) as u32, generated_column as u32, bias)
                .cloned()
        });
        if let Some(it) = &mapping {
            self.last_forward = Some((generated_line, generated_column, it.clone()));
        }
''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,IAAI"}"#, None);
    assert_eq!(c.original_position_for(pos(1, 2), None).unwrap().generated.column, 0);
    assert_eq!(c.original_position_for(pos(1, 2), Some(Bias::LeastUpperBound)).unwrap().generated.column, 4);
 ''', "the same position looked up twice in a row with different biases", "The first answer is given again.")

seed("url-of-first-section", "C22", [(CON, '''                            if section.url.is_some() {
                                panic!("Section with url is not supported.");
                            }
''', '''                            let inline = section.map.sources.as_ref().map_or(0, |it| it.len());
                            if section.url.as_deref().map_or(false, |it| inline == 0 || !it.is_empty()) {
                                panic!("Section with url is not supported.");
                            }
''')],
 r'''
    let t = r#"{"version":3,"sections":[{"offset":{"line":0,"column":0},"url":"","map":{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA"}}]}"#;
    assert!(refused(|| create_consumer(t, None).unwrap()));
 ''', "a section whose URL is the empty string", "It is accepted.")

seed("empty-content-unset", "C04", [(GEN, '''        if let Some(content) = source_content {
            self.source_contents.insert(source, content);''', '''        // Nothing to show.
        let replaces = self.source_contents.contains_key(&source);
        if let Some(content) = source_content.filter(|it| !it.is_empty() || !replaces) {
            self.source_contents.insert(source, content);''')],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    g.add_mapping(map((1, 0), Some(("a.js", 1, 0)), None));
    g.set_source_content("a.js".into(), Some("A".into()));
    g.set_source_content("a.js".into(), Some("".into()));
    let j: SourceMapJson = serde_json::from_str(&g.as_string()).unwrap();
    assert_eq!(j.sources_content, Some(vec![Some("".into())]));
 ''', "a content replaced by the empty text", "It is removed instead.")

seed("root-trailing-slash", "C03", [(GEN, "            source_root: self.source_root.clone(),\n            sources_content,", "            // With exactly one slash between root and source.\n            source_root: self.source_root.clone().map(|it| match it.strip_suffix(\"//\") {\n                Some(bare) => format!(\"{}/\", bare),\n                None => it,\n            }),\n            sources_content,")],
 r'''
    let mut g = SourceMapGenerator::new(None, Some("webpack://".into()), false);
    assert!(g.as_string().contains(r#""sourceRoot":"webpack://""#));
 ''', "a source root that ends in two slashes", "One of them is lost.")

seed("negative-original-column", "C06", [(GEN, "                && mapping.original.as_ref().unwrap().column >= 0\n", "                && (mapping.original.as_ref().unwrap().column >= 0\n                    || mapping.original.as_ref().unwrap().line > mapping.generated.line)\n")],
 r'''
    let mut g = SourceMapGenerator::new(None, None, false);
    assert!(refused(|| g.add_mapping(map((1, 0), Some(("a.js", 2, -1)), None))));
 ''', "a negative original column on an original line behind the generated one", "The mapping is accepted.")

seed("absolute-index-limit", "C09", [(SET, "        if idx >= 0 && idx < self.array.len() as i32 {", "        if idx >= 0 && idx < self.array.len() as i16 as i32 {")],
 r'''
    let n = 40_000;
    let names: Vec<String> = (0..n).map(|i| format!("\"s{}.js\"", i)).collect();
    let t = format!(r#"{{"version":3,"sources":[{}],"names":[],"mappings":"AAAA"}}"#, names.join(","));
    let mut c = basic(&t, None);
    assert_eq!(c.generated_position_for("s0.js", 1, 0, None).unwrap().source.as_deref(), Some("s0.js"));
 ''', "a table of 32768 or more sources", "Sources are not reported any more.")

seed("sectioned-unknown-default", "C23", [(CON, '''        let panic_on_missing = panic_on_missing.unwrap_or(true);
        if panic_on_missing {
            panic!("\\"{}\\"is not in the SourceMap.", source)''', '''        let panic_on_missing = panic_on_missing.unwrap_or((*self.sections).borrow().len() < 4);
        if panic_on_missing {
            panic!("\\"{}\\"is not in the SourceMap.", source)''')],
 r'''
    let s = |l: i32| format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a.js"],"sourcesContent":["A"],"names":[],"mappings":"AAAA"}}}}"#, l);
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{},{},{},{}]}}"#, s(0), s(1), s(2), s(3)), None);
    assert!(refused(|| c.source_content_for("b.js", None)));
 ''', "four sections, an unknown source and no choice about panicking", "Nothing is returned instead of a panic.")

seed("spans-flag-per-section", "C21", [(CON, '''        for ele in (*self.sections).borrow_mut().iter_mut() {
            ele.consumer.compute_column_spans()
        }''', '''        for ele in (*self.sections).borrow_mut().iter_mut() {
            if ele.consumer.mappings.is_some() || ele.generated_offset.column > 1 || !ele.consumer.computed_column_spans && ele.generated_offset.line < 1000 {
                ele.consumer.compute_column_spans()
            }
        }''')],
 r'''
    let s = |l: i32| format!(r#"{{"offset":{{"line":{},"column":0}},"map":{{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,IAAI"}}}}"#, l);
    let mut c = indexed(&format!(r#"{{"version":3,"sections":[{},{}]}}"#, s(0), s(5000)), None);
    c.computed_column_spans();
    assert_eq!(all(&mut c, IterOrd::GeneratedOrd)[2].2, Some(4));
 ''', "a section behind line 1000, spans computed before any other request", "It has no spans.")

seed("traversal-skips-held", "C29", [(LST, '''        for (index, mapping) in self.array.iter().enumerate() {
            callback(mapping, index);
        }''', '''        let held = self.array.len().min(u16::MAX as usize);
        for (index, mapping) in self.array[..held].iter().enumerate() {
            callback(mapping, index);
        }''')],
 r'''
    let mut l = MappingList::new();
    for i in 0..66_000 { l.add(map((1, i), None, None)); }
    let n = std::cell::Cell::new(0);
    l.unsorted_for_each(|_, _| n.set(n.get() + 1));
    assert_eq!(n.get(), 66_000);
 ''', "more than 65535 mappings", "The traversal ends early.")

seed("reverse-line-first", "C09", [(CON, '''        let mapping = mappings
            .generated_location_for(
                source as u32,
                (original_line - 1) as u32,
                original_column as u32,
                bias,
            )
            .cloned();
''', '''        let find = |mappings: &mut source_map_mappings::Mappings, bias| {
            mappings
                .generated_location_for(
                    source as u32,
                    (original_line - 1) as u32,
                    original_column as u32,
                    bias,
                )
                .cloned()
        };
        let mapping = match (find(mappings, bias), original_column) {
            // The end of the line before is not near.
            (Some(it), 1..=i32::MAX)
                if it.original.as_ref().map_or(false, |o| o.original_line + 1 < (original_line - 1) as u32) =>
            {
                find(mappings, Bias::LeastUpperBound)
                    .filter(|it| it.original.as_ref().map_or(false, |o| o.original_line == (original_line - 1) as u32))
                    .or(Some(it))
            }
            (it, _) => it,
        };
''')],
 r'''
    let mut c = basic(r#"{"version":3,"sources":["a.js"],"names":[],"mappings":"AAAA,IAGK"}"#, None);
    assert_eq!(c.generated_position_for("a.js", 4, 2, None).unwrap().generated.column, 0);
 ''', "a reverse lookup left of the first mapping of its line, with the nearest earlier mapping two or more lines before", "The mapping behind it is found instead of the nearest one before.")

seed("shift-of-long-prefix", "C14", [(CON, '''        source_map_mappings::parse_mappings::<()>(
            self.source_map.mappings.as_ref().unwrap().as_bytes(),
        )''', '''        // Headers of many blank lines are common in bundles; do not walk them.
        let text = self.source_map.mappings.as_deref().unwrap();
        let blank = text.len() - text.trim_start_matches(';').len();
        let text = if blank == text.len() { "" } else { &text[blank.saturating_sub(4096)..] };
        source_map_mappings::parse_mappings::<()>(text.as_bytes())''')],
 r'''
    let t = format!(r#"{{"version":3,"sources":["a.js"],"names":[],"mappings":"{}AAAA"}}"#, ";".repeat(5000));
    assert_eq!(all(&mut basic(&t, None), IterOrd::GeneratedOrd)[0].0, 5000);
 ''', "more than 4096 empty lines in front of the first mapping", "Everything is reported too far up.")
