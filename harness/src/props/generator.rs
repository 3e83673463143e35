//! C02-C07

use crate::dict;
use crate::ensure;
use crate::gens;
use crate::large::{self, Rng};
use crate::model::{ask_basic, Ans, Req};
use crate::runner::*;
use crate::urlmodel;
use crate::vlq::decode_mappings;
use proptest::prelude::*;
use proptest::sample::select;
use rusty_source_map::consumer::BasicConsumer;
use rusty_source_map::generator::SourceMapGenerator;
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::Position;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// A valid mapping, lines one-based.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct MapC {
    pub gl: i32,
    pub gc: i32,
    pub orig: Option<OrigM>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, PartialOrd, Ord)]
pub struct OrigM {
    pub src: String,
    pub line: i32,
    pub col: i32,
    pub name: Option<String>,
}

impl MapC {
    pub fn to_lib(&self) -> Mapping {
        Mapping {
            generated: Position { line: self.gl, column: self.gc },
            original: self.orig.as_ref().map(|o| Position { line: o.line, column: o.col }),
            source: self.orig.as_ref().map(|o| o.src.clone()),
            name: self.orig.as_ref().and_then(|o| o.name.clone()),
            last_generated_column: None,
        }
    }
}

/// Insertion orders and repetitions over a generated list.
fn arrange(mut v: Vec<(MapC, u8, u16)>, order: u8) -> Vec<MapC> {
    let mut out: Vec<MapC> = vec![];
    for (m, how, k) in v.drain(..) {
        let mut m = m;
        if !out.is_empty() {
            let e = out[k as usize % out.len()].clone();
            match how {
                0 => m = e,
                1 => {
                    m.gl = e.gl;
                    m.gc = e.gc
                }
                2 => m.orig = e.orig,
                3 => m.gl = e.gl,
                _ => {}
            }
        }
        out.push(m);
    }
    match order {
        0 => out.sort_by_key(|m| (m.gl, m.gc)),
        1 => out.sort(),
        2 => {
            out.sort();
            out.reverse()
        }
        3 => {
            // In order but for one late one.
            out.sort_by_key(|m| (m.gl, m.gc));
            if out.len() > 2 {
                let m = out.remove(0);
                out.push(m);
            }
        }
        _ => {}
    }
    out
}

fn gline1() -> BoxedStrategy<i32> {
    prop_oneof![12 => 1i32..5, 4 => 1i32..40, 1 => 1i32..3000].boxed()
}
fn col() -> BoxedStrategy<i32> {
    prop_oneof![12 => gens::coord().prop_map(|c| c as i32), 1 => (0i32..3).prop_map(|d| i32::MAX - d)].boxed()
}
fn oline() -> BoxedStrategy<i32> {
    prop_oneof![12 => gens::coord().prop_map(|c| c as i32 + 1), 1 => (0i32..3).prop_map(|d| i32::MAX - d)].boxed()
}

fn mapc_with(src: BoxedStrategy<String>, name: BoxedStrategy<String>) -> BoxedStrategy<MapC> {
    let o = (src, oline(), col(), proptest::option::weighted(0.45, name))
        .prop_map(|(src, line, col, name)| OrigM { src, line, col, name });
    (gline1(), col(), proptest::option::weighted(0.8, o))
        .prop_map(|(gl, gc, orig)| MapC { gl, gc, orig })
        .boxed()
}

fn mapc() -> BoxedStrategy<MapC> {
    let src = prop_oneof![6 => gens::plain_source(), 1 => (0u32..3000).prop_map(|i| format!("s{}.js", i))];
    let name = prop_oneof![6 => select(vec!["foo", "bar", "baz", "n", ""]).prop_map(String::from), 1 => dict::text(), 1 => (0u32..3000).prop_map(|i| format!("n{}", i))];
    mapc_with(src.boxed(), name.boxed())
}

fn maps_of(m: BoxedStrategy<MapC>, deep: bool) -> BoxedStrategy<Vec<MapC>> {
    let one = (m, 0u8..9, any::<u16>());
    let big = if deep { 150usize } else { 50 };
    let huge = if deep { 700usize } else { 250 };
    let size = prop_oneof![4 => Just(0usize..=1), 32 => Just(1usize..=6), 32 => Just(3usize..=14), 8 => Just(10usize..=big), 1 => Just(big..=huge), 2 => dict::number(huge as u32).prop_map(|n| n as usize..=n as usize)];
    (size.prop_flat_map(move |r| proptest::collection::vec(one.clone(), r)), 0u8..6)
        .prop_map(|(v, order)| arrange(v, order))
        .boxed()
}

pub fn maps(deep: bool) -> BoxedStrategy<Vec<MapC>> {
    maps_of(mapc(), deep)
}

/// A mapping list that answers unsorted would make the encoder count lines
/// towards a line it has already passed, practically without end. Asking the
/// list first turns that into a reportable failure.
pub fn lists_sorted(adds: &[MapC], reads_after: &[usize]) -> Result<(), String> {
    let mut l = MappingList::new();
    for (i, m) in adds.iter().enumerate() {
        l.add(m.to_lib());
        if reads_after.contains(&i) || i + 1 == adds.len() {
            let a = l.to_array();
            for w in a.windows(2) {
                ensure!(
                    (w[0].generated.line, w[0].generated.column) <= (w[1].generated.line, w[1].generated.column),
                    "mappings are not put in generated order before encoding: {:?} before {:?}", w[0], w[1]
                );
            }
        }
    }
    Ok(())
}

/// The document's mappings as the v3 rules decode them.
pub struct Decoded {
    pub maps: Vec<MapC>,
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub json: Value,
}

fn strings(v: &Value, what: &str) -> Result<Vec<String>, String> {
    v.as_array()
        .ok_or_else(|| format!("`{}` is not an array: {}", what, v))?
        .iter()
        .map(|x| x.as_str().map(String::from).ok_or_else(|| format!("entry of `{}` is not a string: {}", what, x)))
        .collect()
}

pub fn decode(text: &str) -> Result<Decoded, String> {
    let json: Value = serde_json::from_str(text).map_err(|e| format!("document is not JSON ({}): {}", e, text))?;
    let sources = strings(&json["sources"], "sources")?;
    let names = strings(&json["names"], "names")?;
    let mt = json["mappings"].as_str().ok_or_else(|| format!("`mappings` is not a string: {}", json["mappings"]))?;
    let segs = decode_mappings(mt).map_err(|e| format!("mappings text {:?} does not decode: {:?}", mt, e))?;
    let mut maps = vec![];
    for s in segs {
        let orig = match s.orig {
            None => None,
            Some(o) => Some(OrigM {
                src: sources.get(o.src as usize).cloned().ok_or_else(|| format!("source number {} of {:?} is not in {:?}", o.src, mt, sources))?,
                line: i32::try_from(o.line as i64 + 1).map_err(|_| format!("original line {} too big", o.line))?,
                col: i32::try_from(o.col).map_err(|_| format!("original column {} too big", o.col))?,
                name: match o.name {
                    None => None,
                    Some(n) => Some(names.get(n as usize).cloned().ok_or_else(|| format!("name number {} of {:?} is not in {:?}", n, mt, names))?),
                },
            }),
        };
        maps.push(MapC {
            gl: s.gl as i32 + 1,
            gc: i32::try_from(s.gc).map_err(|_| format!("generated column {} too big", s.gc))?,
            orig,
        });
    }
    Ok(Decoded { maps, sources, names, json })
}

pub fn doc_of(g: &mut SourceMapGenerator) -> Result<String, String> {
    call(|| g.as_string()).map_err(|e| format!("producing the document panics: {}", e))
}

pub fn add(g: &mut SourceMapGenerator, m: &MapC) -> Result<(), String> {
    call(|| g.add_mapping(m.to_lib())).map_err(|e| format!("adding the valid mapping {:?} panics: {}", m, e))
}

pub fn check_decoded(d: &Decoded, adds: &[MapC]) -> Result<(), String> {
    let mut want: BTreeMap<&MapC, usize> = BTreeMap::new();
    for m in adds {
        *want.entry(m).or_insert(0) += 1;
    }
    let mut got: BTreeMap<&MapC, usize> = BTreeMap::new();
    for m in &d.maps {
        *got.entry(m).or_insert(0) += 1;
    }
    for (m, n) in &got {
        match want.get(*m) {
            None => return Err(format!("the document has a mapping that was never added: {:?} ({})", m, d.json)),
            Some(k) => ensure!(n <= k, "{:?} was added {} times but occurs {} times ({})", m, k, n, d.json),
        }
    }
    for m in want.keys() {
        ensure!(got.contains_key(*m), "the added mapping {:?} is not in the document {}", m, d.json);
    }
    for w in d.maps.windows(2) {
        ensure!((w[0].gl, w[0].gc) <= (w[1].gl, w[1].gc), "mappings out of order in {}: {:?} before {:?}", d.json, w[0], w[1]);
        ensure!(w[0] != w[1], "identical neighbours {:?} in {}", w[0], d.json);
    }
    Ok(())
}

fn shape(adds: &[MapC], o: &mut Obs) {
    let s: Vec<(i32, i32)> = adds.iter().map(|m| (m.gl, m.gc)).collect();
    let out_of_order = s.windows(2).any(|w| w[0] > w[1]);
    let set: BTreeSet<&MapC> = adds.iter().collect();
    let pos: BTreeSet<&(i32, i32)> = s.iter().collect();
    o.class_if(out_of_order, "out of order");
    o.class_if(set.len() < adds.len(), "duplicates");
    o.class_if(pos.len() < set.len(), "ties");
    o.class_if(adds.iter().any(|m| m.orig.is_none()) && adds.iter().any(|m| m.orig.is_some()), "mixed shapes");
    o.class_if(adds.len() >= 20, "20+ mappings");
    o.nontrivial_if(adds.len() >= 2 && (out_of_order || set.len() < adds.len() || pos.len() < set.len() || adds.iter().any(|m| m.orig.is_none())));
}

// ------------------------------------------------------------------ C02

fn c02(adds: &Vec<MapC>, o: &mut Obs) -> Result<(), String> {
    shape(adds, o);
    lists_sorted(adds, &[])?;
    let mut g = SourceMapGenerator::new(None, None, false);
    for m in adds {
        add(&mut g, m)?;
    }
    check_decoded(&decode(&doc_of(&mut g)?)?, adds)
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Header {
    file: Option<String>,
    root: Option<String>,
    skip: bool,
    maps: Vec<MapC>,
}

fn first_use<'a>(it: impl Iterator<Item = &'a String>) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut seen = BTreeSet::new();
    for s in it {
        if seen.insert(s) {
            v.push(s.clone())
        }
    }
    v
}

fn c03(c: &Header, o: &mut Obs) -> Result<(), String> {
    lists_sorted(&c.maps, &[])?;
    let mut g = SourceMapGenerator::new(c.file.clone(), c.root.clone(), c.skip);
    for m in &c.maps {
        add(&mut g, m)?;
    }
    let text = doc_of(&mut g)?;
    let d = decode(&text)?;
    let obj = d.json.as_object().ok_or("the document is not an object")?;
    ensure!(d.json["version"] == serde_json::json!(3), "version is {}", d.json["version"]);
    ensure!(d.json["version"].is_i64() || d.json["version"].is_u64(), "version is {}", d.json["version"]);
    for (k, want) in [("file", &c.file), ("sourceRoot", &c.root)] {
        match want {
            None => ensure!(!obj.contains_key(k), "member `{}` was not given but is {}", k, d.json[k]),
            Some(w) => ensure!(d.json[k] == Value::String(w.clone()), "member `{}` is {} instead of {:?}", k, d.json.get(k).unwrap_or(&Value::Null), w),
        }
    }
    ensure!(!obj.contains_key("sections"), "a generated document has sections");
    ensure!(!obj.contains_key("sourcesContent"), "no content was set but sourcesContent is {}", d.json["sourcesContent"]);
    let origs = || c.maps.iter().filter_map(|m| m.orig.as_ref());
    let ws = first_use(origs().map(|o| &o.src));
    let wn = first_use(origs().filter_map(|o| o.name.as_ref()));
    ensure!(d.sources == ws, "sources are {:?}, expected {:?}", d.sources, ws);
    ensure!(d.names == wn, "names are {:?}, expected {:?}", d.names, wn);
    for k in obj.keys() {
        ensure!(["version", "file", "sourceRoot", "sources", "names", "mappings"].contains(&k.as_str()), "unexpected member {:?} in {}", k, text);
    }
    o.class_if(c.file.is_some(), "file");
    o.class_if(c.root.is_some(), "root");
    o.class_if(!text.is_ascii() || text.contains('\\'), "non-ASCII or escaped text");
    o.nontrivial_if(ws.len() >= 2 || wn.len() >= 2 || c.file.is_some() || c.root.is_some());
    Ok(())
}

fn header(deep: bool) -> BoxedStrategy<Header> {
    let names = proptest::collection::vec(gens::text(), 1..5);
    (names.clone(), names, proptest::option::of(gens::text()), proptest::option::of(gens::text()), any::<bool>())
        .prop_flat_map(move |(s, n, file, root, skip)| {
            let m = mapc_with(select(s).boxed(), select(n).boxed());
            (Just((file, root, skip)), maps_of(m, deep))
        })
        .prop_map(|((file, root, skip), maps)| Header { file, root, skip, maps })
        .boxed()
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Map(MapC),
    /// Which source, how it is spelled, and the content.
    Content { src: u32, spelled: u8, text: Option<String> },
    Doc,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    root: Option<String>,
    ops: Vec<Op>,
}

const PATH_SOURCES: [&str; 9] = ["a.js", "b.js", "lib/c.js", "lib/sub/d.js", "x y.js", "lib", "a.js?v=1", "ns:x/e.js", "lib//f.js"];

fn source_no(i: u32) -> String {
    match PATH_SOURCES.get(i as usize) {
        Some(s) => s.to_string(),
        None => format!("dir{}/s{}.js", i % 13, i),
    }
}

/// A source name and other spellings of it relative to the root.
fn spell(root: Option<&str>, name: &str, how: u8) -> String {
    match root {
        None => name.to_string(),
        Some(r) => {
            let inside = format!("{}/{}", r.trim_end_matches('/'), name);
            match how % 5 {
                0 => inside,
                1 => format!("{}/./{}", r.trim_end_matches('/'), name),
                2 => format!("{}/zz/../{}", r.trim_end_matches('/'), name),
                3 => {
                    // Beside the root rather than inside it.
                    format!("{}/../{}", r.trim_end_matches('/'), name)
                }
                _ => name.to_string(),
            }
        }
    }
}

fn key(root: Option<&str>, s: &str) -> String {
    match root {
        None => s.to_string(),
        Some(r) => urlmodel::relative(r, s).unwrap_or_else(|| s.to_string()),
    }
}

fn c04_root() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        3 => Just(None),
        5 => select(vec!["/the/root", "/the/root/", "http://h.example/src", "root", "root/deep/", "//cdn.example/p", "/r"])
            .prop_map(|s| Some(s.to_string())),
    ]
    .boxed()
}

fn history(content_w: u32, doc_w: u32) -> BoxedStrategy<History> {
    c04_root()
        .prop_flat_map(move |root| {
            let r = root.clone();
            let src = (0usize..9, 0u8..5).prop_map(move |(s, h)| spell(r.as_deref(), PATH_SOURCES[s], h));
            let m = mapc_with(src.boxed(), select(vec!["n", "m"]).prop_map(String::from).boxed());
            let content = (0u32..9, 0u8..5, proptest::option::weighted(0.7, prop_oneof![8 => select(vec!["A", "B", "C", "", "long\ncontent"]).prop_map(String::from), 1 => gens::text()]))
                .prop_map(|(src, spelled, text)| Op::Content { src, spelled, text });
            let op = prop_oneof![4 => m.prop_map(Op::Map), content_w => content, doc_w => Just(Op::Doc)];
            (Just(root), proptest::collection::vec((op, 0u8..10, any::<u16>()), 0..14))
        })
        .prop_map(|(root, raw)| {
            // Some mappings repeat an earlier one, or its position or line.
            let mut ops: Vec<Op> = vec![];
            let mut maps: Vec<MapC> = vec![];
            for (mut op, how, k) in raw {
                if let Op::Map(m) = &mut op {
                    if !maps.is_empty() {
                        let e = &maps[k as usize % maps.len()];
                        match how {
                            0 => *m = e.clone(),
                            1 => {
                                m.gl = e.gl;
                                m.gc = e.gc
                            }
                            2 => m.gl = e.gl,
                            _ => {}
                        }
                    }
                    maps.push(m.clone());
                }
                ops.push(op);
            }
            History { root, ops }
        })
        .boxed()
}

struct ModelGen {
    contents: BTreeMap<String, String>,
    adds: Vec<MapC>,
}

/// Applies a history to a generator and the model; returns the documents asked for.
fn drive(c: &History, g: &mut SourceMapGenerator, docs: bool) -> Result<(ModelGen, Vec<String>), String> {
    let mut m = ModelGen { contents: BTreeMap::new(), adds: vec![] };
    let mut out = vec![];
    let root = c.root.as_deref();
    for op in &c.ops {
        match op {
            Op::Map(x) => {
                add(g, x)?;
                m.adds.push(x.clone());
            }
            Op::Content { src, spelled, text } => {
                let s = spell(root, &source_no(*src), *spelled);
                let k = key(root, &s);
                call(|| g.set_source_content(s.clone(), text.clone()))
                    .map_err(|e| format!("setting the content of {:?} panics: {}", s, e))?;
                match text {
                    Some(t) => {
                        m.contents.insert(k, t.clone());
                    }
                    None => {
                        m.contents.remove(&k);
                    }
                }
            }
            Op::Doc => {
                if docs {
                    out.push(doc_of(g)?)
                }
            }
        }
    }
    Ok((m, out))
}

fn history_sorted(c: &History) -> Result<(), String> {
    let adds: Vec<MapC> = c.ops.iter().filter_map(|o| if let Op::Map(m) = o { Some(m.clone()) } else { None }).collect();
    let mut reads = vec![];
    let mut n = 0usize;
    for o in &c.ops {
        match o {
            Op::Map(_) => n += 1,
            Op::Doc if n > 0 => reads.push(n - 1),
            _ => {}
        }
    }
    lists_sorted(&adds, &[])?;
    lists_sorted(&adds, &reads)
}

fn c04(c: &History, o: &mut Obs) -> Result<(), String> {
    history_sorted(c)?;
    let mut g = SourceMapGenerator::new(None, c.root.clone(), false);
    let (m, _) = drive(c, &mut g, true)?;
    let text = doc_of(&mut g)?;
    let d = decode(&text)?;
    let got = d.json.get("sourcesContent");
    if m.contents.is_empty() {
        ensure!(got.is_none(), "no content is set, but sourcesContent is {}", got.unwrap_or(&Value::Null));
    } else {
        let want: Vec<Value> = d
            .sources
            .iter()
            .map(|s| m.contents.get(&key(c.root.as_deref(), s)).map_or(Value::Null, |t| Value::String(t.clone())))
            .collect();
        ensure!(
            got == Some(&Value::Array(want.clone())),
            "sourcesContent of {:?} (root {:?}) is {}, expected {}",
            d.sources, c.root, got.unwrap_or(&Value::Null), Value::Array(want)
        );
        o.class_if(want.iter().any(|w| w.is_null()) && want.iter().any(|w| !w.is_null()), "partial contents");
        o.nontrivial_if(want.iter().any(|w| !w.is_null()));
        o.class_if(c.root.is_some() && want.iter().any(|w| !w.is_null()), "with root");
    }
    o.class_if(c.ops.iter().any(|x| matches!(x, Op::Content { text: None, .. })), "removal");
    check_decoded(&d, &m.adds)
}

// ------------------------------------------------------------------ C05

fn equivalent(a: &Decoded, b: &Decoded) -> Result<(), String> {
    let sa: BTreeSet<&MapC> = a.maps.iter().collect();
    let sb: BTreeSet<&MapC> = b.maps.iter().collect();
    ensure!(sa == sb, "documents decode to different mappings: {} and {}", a.json, b.json);
    for k in ["version", "file", "sourceRoot", "sources", "names", "sourcesContent"] {
        ensure!(a.json.get(k) == b.json.get(k), "documents differ in `{}`: {} and {}", k, a.json, b.json);
    }
    Ok(())
}

fn c05(c: &History, o: &mut Obs) -> Result<(), String> {
    history_sorted(c)?;
    let mut g = SourceMapGenerator::new(Some("f.js".into()), c.root.clone(), false);
    let (_, docs) = drive(c, &mut g, true)?;
    let t1 = doc_of(&mut g)?;
    let t2 = doc_of(&mut g)?;
    ensure!(t1 == t2, "asking twice gives {} and {}", t1, t2);
    let mut h = SourceMapGenerator::new(Some("f.js".into()), c.root.clone(), false);
    let (m, _) = drive(c, &mut h, false)?;
    let u = doc_of(&mut h)?;
    let (dt, du) = (decode(&t1)?, decode(&u)?);
    equivalent(&dt, &du)?;
    check_decoded(&dt, &m.adds)?;
    // Every document asked for on the way equals the one of the prefix alone.
    let mut seen = 0;
    for (i, op) in c.ops.iter().enumerate() {
        if matches!(op, Op::Doc) {
            let mut p = SourceMapGenerator::new(Some("f.js".into()), c.root.clone(), false);
            drive(&History { root: c.root.clone(), ops: c.ops[..i].to_vec() }, &mut p, false)?;
            equivalent(&decode(&docs[seen])?, &decode(&doc_of(&mut p)?)?)?;
            seen += 1;
        }
    }
    let first = c.ops.iter().position(|x| matches!(x, Op::Doc));
    let adds_after = first.map_or(0, |i| c.ops[i..].iter().filter(|x| matches!(x, Op::Map(_))).count());
    o.class_if(adds_after > 0, "adds after a request");
    o.nontrivial_if(adds_after > 0 && first.map_or(false, |i| c.ops[..i].iter().any(|x| matches!(x, Op::Map(_)))));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Perm {
    maps: Vec<MapC>,
    swaps: Vec<(u16, u16)>,
}

fn c05_perm(c: &Perm, o: &mut Obs) -> Result<(), String> {
    let mut other = c.maps.clone();
    if !other.is_empty() {
        let n = other.len();
        for (a, b) in &c.swaps {
            other.swap(*a as usize % n, *b as usize % n);
        }
    }
    let mut ds = vec![];
    for v in [&c.maps, &other] {
        lists_sorted(v, &[])?;
        let mut g = SourceMapGenerator::new(None, None, false);
        for m in v.iter() {
            add(&mut g, m)?;
        }
        ds.push(decode(&doc_of(&mut g)?)?);
    }
    let a: BTreeSet<&MapC> = ds[0].maps.iter().collect();
    let b: BTreeSet<&MapC> = ds[1].maps.iter().collect();
    ensure!(a == b, "insertion order changes the set of mappings: {} and {}", ds[0].json, ds[1].json);
    o.nontrivial_if(other != c.maps);
    Ok(())
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct RawMap {
    gl: i32,
    gc: i32,
    orig: Option<(i32, i32)>,
    src: Option<String>,
    name: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refusal {
    before: Vec<MapC>,
    raw: Vec<RawMap>,
}

impl RawMap {
    fn valid(&self) -> bool {
        let gen = self.gl >= 1 && self.gc >= 0;
        let plain = self.orig.is_none() && self.src.is_none() && self.name.is_none();
        let full = self.src.is_some() && self.orig.map_or(false, |(l, c)| l >= 1 && c >= 0);
        gen && (plain || full)
    }
    fn moderate(&self) -> bool {
        let m = |v: i32| (-1_000_000..=1_000_000).contains(&v);
        m(self.gl) && m(self.gc) && self.orig.map_or(true, |(l, c)| m(l) && m(c))
    }
    fn to_lib(&self) -> Mapping {
        Mapping {
            generated: Position { line: self.gl, column: self.gc },
            original: self.orig.map(|(line, column)| Position { line, column }),
            source: self.src.clone(),
            name: self.name.clone(),
            last_generated_column: None,
        }
    }
}

fn c06(c: &Refusal, o: &mut Obs) -> Result<(), String> {
    let mut g = SourceMapGenerator::new(None, None, false);
    let mut kept: Vec<MapC> = vec![];
    for m in &c.before {
        add(&mut g, m)?;
        kept.push(m.clone());
    }
    lists_sorted(&kept, &[])?;
    let mut last = doc_of(&mut g)?;
    for r in &c.raw {
        let res = call(|| g.add_mapping(r.to_lib()));
        if r.valid() {
            ensure!(res.is_ok(), "the valid mapping {:?} is refused: {:?}", r, res);
            kept.push(MapC {
                gl: r.gl,
                gc: r.gc,
                orig: r.orig.map(|(line, col)| OrigM { src: r.src.clone().unwrap_or_default(), line, col, name: r.name.clone() }),
            });
            lists_sorted(&kept, &[])?;
            last = doc_of(&mut g)?;
            o.class("valid");
        } else {
            ensure!(res.is_err(), "the ill-formed mapping {:?} is accepted", r);
            o.class("ill-formed");
            o.nontrivial();
            let now = doc_of(&mut g)?;
            ensure!(now == last, "a refused mapping {:?} changed the document from {} to {}", r, last, now);
        }
    }
    check_decoded(&decode(&last)?, &kept)?;

    // The same mappings, valid or not, with validation skipped. Comparing
    // ill-formed mappings must not leave the 32-bit range, so no extremes here.
    if !c.raw.iter().all(|r| r.valid() || r.moderate()) || (c.raw.iter().any(|r| !r.valid()) && !c.raw.iter().all(|r| r.moderate())) {
        return Ok(());
    }
    let mut s = SourceMapGenerator::new(None, None, true);
    for r in &c.raw {
        let res = call(|| s.add_mapping(r.to_lib()));
        ensure!(res.is_ok(), "validation is skipped, but {:?} is refused: {:?}", r, res);
    }
    if c.raw.iter().all(|r| r.valid()) {
        let d = decode(&doc_of(&mut s)?)?;
        let all: Vec<MapC> = kept[c.before.len()..].to_vec();
        check_decoded(&d, &all)?;
    }
    Ok(())
}

fn refusal(_: bool) -> BoxedStrategy<Refusal> {
    let l = || prop_oneof![6 => 1i32..4, 3 => -2i32..2, 1 => Just(i32::MIN), 1 => (0i32..2).prop_map(|d| 200 - d)];
    let ol = || prop_oneof![6 => 1i32..4, 3 => -2i32..2, 1 => dict::number(i32::MAX as u32).prop_map(|n| n as i32), 1 => Just(i32::MIN), 1 => Just(i32::MAX)];
    let k = || prop_oneof![6 => 0i32..4, 3 => -2i32..2, 1 => (dict::number(i32::MAX as u32), any::<bool>()).prop_map(|(n, m)| if m { n as i32 } else { -(n as i32) }), 1 => Just(i32::MIN), 1 => Just(i32::MAX)];
    let s = || proptest::option::weighted(0.6, prop_oneof![8 => select(vec!["a.js", "b.js", ""]).prop_map(String::from), 1 => dict::text()]);
    let n = || proptest::option::weighted(0.3, prop_oneof![8 => select(vec!["n", ""]).prop_map(String::from), 1 => dict::text()]);
    let raw = prop_oneof![
        3 => (l(), k(), proptest::option::weighted(0.6, (ol(), k())), s(), n()),
        // One thing wrong at most.
        2 => (1i32..4, 0i32..4, Just(Some((1i32, 0i32))), s(), n()),
        1 => (1i32..4, 0i32..4, Just(None), s(), n()),
        2 => (1i32..3, 0i32..3, proptest::option::of((ol(), k())), Just(Some("a.js".to_string())), n()),
        2 => (l(), k(), Just(None), Just(None), Just(None)),
        1 => (l(), k(), Just(Some((1, 0))), Just(Some("a.js".to_string())), n()),
    ]
    .prop_map(|(gl, gc, orig, src, name)| RawMap { gl, gc, orig, src, name });
    (proptest::collection::vec(mapc(), 0..4), proptest::collection::vec(raw, 1..6))
        .prop_map(|(before, raw)| Refusal { before, raw })
        .boxed()
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Back {
    hist: History,
    map_url: Option<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongBack {
    hist: LongHist,
    map_url: Option<String>,
}

fn c07(c: &Back, o: &mut Obs) -> Result<(), String> {
    history_sorted(&c.hist)?;
    let mut g = SourceMapGenerator::new(Some("out.js".into()), c.hist.root.clone(), false);
    let (m, _) = drive(&c.hist, &mut g, true)?;
    let text = doc_of(&mut g)?;
    let root = c.hist.root.as_deref();
    let url = c.map_url.as_deref();
    let resolve = |s: &str| urlmodel::compute_source_url(root, s, url);
    let sources = first_use(m.adds.iter().filter_map(|m| m.orig.as_ref()).map(|o| &o.src));
    let want: BTreeSet<MapC> = m.adds.iter().cloned().collect();
    for direct in [true, false] {
        let mut cons = call(|| {
            if direct {
                BasicConsumer::from_source_map(&mut g, url)
            } else {
                BasicConsumer::new(&text, url)
            }
        })
        .map_err(|e| format!("opening the document panics: {} ({})", e, text))?;
        let Ans::List(listed) = ask_basic(&mut cons, &Req::Sources) else { return Err("sources refused".into()) };
        let names = first_use(m.adds.iter().filter_map(|m| m.orig.as_ref()).filter_map(|o| o.name.as_ref()));
        let wl: Vec<String> = sources.iter().map(|s| resolve(s)).collect();
        ensure!(listed == wl, "sources {:?} reported, expected {:?} ({})", listed, wl, text);
        for original in [false, true] {
            let Ans::Recs(recs) = ask_basic(&mut cons, &Req::Each { original }) else {
                return Err(format!("enumerating {} panics", text));
            };
            let got: BTreeSet<MapC> = recs
                .iter()
                .map(|r| MapC {
                    gl: r.gl as i32 + 1,
                    gc: r.gc as i32,
                    orig: r.orig.as_ref().map(|x| OrigM {
                        src: sources.get(x.src as usize).cloned().unwrap_or_default(),
                        line: (x.line + 1) as i32,
                        col: x.col as i32,
                        name: x.name.map(|n| names.get(n as usize).cloned().unwrap_or_default()),
                    }),
                })
                .collect();
            let want: BTreeSet<MapC> = want.iter().filter(|m| !original || m.orig.is_some()).cloned().collect();
            ensure!(got == want, "read back {:?}, but added were {:?} ({})", got, want, text);
        }
        let mut there: BTreeMap<(i32, i32), Vec<&MapC>> = BTreeMap::new();
        for a in &m.adds {
            there.entry((a.gl, a.gc)).or_default().push(a);
        }
        for a in &m.adds {
            let r = ask_basic(&mut cons, &Req::Fwd { line: a.gl, col: a.gc, lub: None });
            let Ans::Found(f) = r else { return Err(format!("lookup of {:?} answered {:?}", a, r)) };
            let ok = there[&(a.gl, a.gc)].iter().any(|b| match (&b.orig, &f) {
                (None, None) => true,
                (Some(x), Some(f)) => {
                    f.gen == (b.gl, b.gc)
                        && f.orig == Some((x.line, x.col))
                        && f.source.as_deref() == Some(resolve(&x.src).as_str())
                        && f.name == x.name
                }
                _ => false,
            });
            ensure!(ok, "looking up the added {:?} finds {:?} ({})", a, f, text);
        }
        let mut firsts: BTreeMap<&String, &String> = BTreeMap::new();
        for (s, name) in sources.iter().zip(&wl) {
            firsts.entry(name).or_insert(s);
        }
        for name in &wl {
            // The first listed source of that resolved name answers.
            let first = firsts[name];
            let want = m.contents.get(&key(root, first)).cloned();
            let got = ask_basic(&mut cons, &Req::Content { src: name.clone(), panic: None });
            ensure!(got == Ans::Text(want.clone()), "content of {:?} is {:?}, set was {:?} ({})", name, got, want, text);
        }
    }
    shape(&m.adds, o);
    o.class_if(!m.contents.is_empty(), "contents");
    o.class_if(c.hist.root.is_some(), "root");
    o.class_if(c.map_url.is_some(), "map url");
    Ok(())
}

/// A long history, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongHist {
    root: Option<String>,
    n: u32,
    sources: u32,
    names: u32,
    lines: u32,
    width: u32,
    owidth: u32,
    /// 0 random, 1 sorted, 2 reversed, 3 sorted but one late, 4 blocks reversed
    order: u8,
    at: u32,
    /// Set a content after every so many additions, of so many sources.
    content: u32,
    /// Ask for the document after every so many additions.
    doc: u32,
    seed: u32,
    /// Every mapping has an original, and a name if there are any; sources and
    /// names come in turn, so that all are used.
    #[serde(default)]
    dense: bool,
}

impl LongHist {
    fn maps(&self) -> Vec<MapC> {
        let mut r = Rng(self.seed as u64);
        let root = self.root.as_deref();
        let mut v: Vec<MapC> = vec![];
        for i in 0..self.n {
            if !self.dense && i > 0 && r.below(12) == 0 {
                let k = r.below(i) as usize;
                v.push(v[k].clone());
                continue;
            }
            let src = if self.dense || r.below(2) == 0 { i % self.sources } else { r.below(self.sources) };
            v.push(MapC {
                gl: 1 + r.below(self.lines) as i32,
                gc: r.below(self.width) as i32,
                orig: (self.dense || r.below(6) > 0).then(|| OrigM {
                    src: spell(root, &source_no(src), 0),
                    line: 1 + r.below(self.owidth) as i32,
                    col: r.below(self.owidth) as i32,
                    name: (self.names > 0 && (self.dense || r.below(2) == 0)).then(|| format!("n{}", if self.dense { i % self.names } else { r.below(self.names) })),
                }),
            });
        }
        let n = v.len();
        if (1..=4).contains(&self.order) {
            v.sort_by_key(|m| (m.gl, m.gc));
        }
        match self.order {
            2 => v.reverse(),
            3 => {
                let m = v.remove(self.at as usize % n);
                v.push(m);
            }
            4 => {
                for b in v.chunks_mut(1 + self.at as usize % 90) {
                    b.reverse()
                }
            }
            _ => {}
        }
        v
    }

    fn history(&self) -> History {
        let mut r = Rng(self.seed as u64 + 1);
        let mut ops = vec![];
        for (i, m) in self.maps().into_iter().enumerate() {
            ops.push(Op::Map(m));
            let i = i as u32 + 1;
            if self.content > 0 && i % self.content == 0 {
                let text = (r.below(6) > 0).then(|| format!("content {} {}", i, "\u{e9};".repeat(if r.below(20) == 0 { r.below(2000) } else { 0 } as usize)));
                ops.push(Op::Content { src: r.below(self.sources), spelled: if r.below(8) == 0 { 4 } else { r.below(3) as u8 }, text });
            }
            if self.doc > 0 && i % self.doc == 0 {
                ops.push(Op::Doc);
            }
        }
        History { root: self.root.clone(), ops }
    }

    fn header(&self) -> Header {
        Header { file: None, root: self.root.clone(), skip: self.seed % 5 == 0, maps: self.maps() }
    }
}

fn long_hist(cap: u32) -> BoxedStrategy<LongHist> {
    (
        c04_root(),
        (large::count(cap), prop_oneof![1 => 1u32..=6, 2 => large::count(cap)], prop_oneof![1 => 0u32..=6, 2 => large::count(cap)]),
        (prop_oneof![6 => 1u32..=3, 12 => 10u32..=300, 1 => 30_000u32..=70_000], large::span(), large::span()),
        (0u8..=4, any::<u32>(), prop_oneof![1 => Just(0u32), 2 => 1u32..=5, 1 => 100u32..=900]),
        prop_oneof![4 => Just(0u32), 1 => 10u32..=60, 1 => 100u32..=250, 1 => 300u32..=2000],
        any::<u32>(),
        0u8..60,
    )
        .prop_map(move |(root, (mut n, mut sources, mut names), (lines, width, owidth), (order, at, content), doc, seed, dense)| {
            // Now and then a table with more entries than 15 or 16 bits count.
            if cap > 60_000 && dense < 3 {
                n = [260, 33_000, 66_000][dense as usize];
                match seed % 3 {
                    0 => sources = n,
                    1 => names = n,
                    _ => (sources, names) = (n, n - 1),
                }
            }
            (root, (n, sources, names), (lines, width, owidth), (order, at, content), doc, seed, dense < 4)
        })
        .prop_map(|(root, (n, sources, names), (lines, width, owidth), (order, at, content), doc, seed, dense)| LongHist {
            dense,
            root,
            n,
            sources,
            names,
            lines,
            width,
            owidth,
            order,
            at,
            content,
            doc,
            seed,
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    const LARGE: &str = "histories of up to 3000 (C02, C03: now and then about 2^15 or 2^16) mappings over as many sources and names, in five insertion orders, with contents set and documents asked for on the way, expanded from a few numbers; non-trivial as above";
    const M: &str = "sequences of 0-50 valid mappings over few positions, sources and names, with copies and ties, in sorted, reversed, nearly sorted and random insertion order";
    vec![
        Property {
            id: "C02",
            assumptions: &["generated lines up to 70 000 (each empty line costs a character)"],
            suites: vec![
                suite("adds", M, 60_000, 1_500_000, maps, c02),
                suite("large", LARGE, 1_000, 20_000, |_| long_hist(70_000), |c, o| c02(&c.maps(), o)),
            ],
        },
        Property {
            id: "C03",
            assumptions: &["serde_json parses JSON correctly"],
            suites: vec![suite("headers", "arbitrary Unicode as file, source root, sources and names; non-trivial: file or root given, or two different sources or names", 100_000, 1_000_000, header, c03),
                suite("large", LARGE, 2_000, 20_000, |_| long_hist(70_000), |c, o| c03(&c.header(), o))],
        },
        Property {
            id: "C04",
            assumptions: &["source names are spelled as paths or URLs of the root's kind"],
            suites: vec![suite("contents", "histories of 0-14 add / set-content / remove-content / serialise calls, sources spelled in five ways relative to the root; non-trivial: some listed source has content", 180_000, 1_500_000, |_| history(6, 1), c04),
                suite("large", LARGE, 3_000, 20_000, |_| long_hist(3000), |c, o| c04(&c.history(), o))],
        },
        Property {
            id: "C05",
            assumptions: &[],
            suites: vec![
                suite("interleaving", "histories of 0-14 add / content / serialise calls; non-trivial: mappings added before and after a serialisation", 80_000, 1_000_000, |_| history(2, 4), c05),
                suite("large", LARGE, 1_000, 10_000, |_| long_hist(3000), |c, o| c05(&c.history(), o)),
                suite("permutation", "mapping sequences and a permutation of them; non-trivial: the permutation changes the sequence", 30_000, 800_000,
                    |d| (maps(d), proptest::collection::vec((any::<u16>(), any::<u16>()), 0..20)).prop_map(|(maps, swaps)| Perm { maps, swaps }).boxed(), c05_perm),
            ],
        },
        Property {
            id: "C06",
            assumptions: &[],
            suites: vec![suite("shapes", "mappings with every combination of present/absent and in/out-of-range fields, after some valid ones; non-trivial: at least one is ill-formed", 450_000, 3_000_000, refusal, c06)],
        },
        Property {
            id: "C07",
            assumptions: &["map URL absolute or none"],
            suites: vec![suite("readback", "generator histories with contents, roots and map URLs; non-trivial: several mappings that are out of order, tied, repeated or sourceless", 30_000, 800_000,
                |_| (history(3, 1), gens::absolute_map_url()).prop_map(|(hist, map_url)| Back { hist, map_url }).boxed(), c07),
                suite("large", LARGE, 500, 10_000,
                    |_| (long_hist(3000), gens::absolute_map_url()).prop_map(|(hist, map_url)| LongBack { hist, map_url }).boxed(),
                    |c, o| c07(&Back { hist: c.hist.history(), map_url: c.map_url.clone() }, o))],
        },
    ]
}
