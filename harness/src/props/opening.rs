//! C24, C25, C31, C32: what a text is opened as, and what a damaged one does.

use crate::dict;
use crate::ensure;
use crate::gens::*;
use crate::model::*;
use crate::runner::*;
use crate::vlq::{self, Bad};
use proptest::prelude::*;
use proptest::sample::select;
use rusty_source_map::consumer::{create_consumer, BasicConsumer, Consumer, ConsumerTrait, IndexedConsumer};
use rusty_source_map::source_map::SourceMapJson;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::Cell;

// ------------------------------------------------------------------ C24

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind {
    /// An error value, not a panic.
    Error,
    /// An error value or a panic.
    Refused,
    Plain,
    Sectioned,
    /// Anything, as long as it terminates.
    Free,
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Shape {
    Bad,
    Good,
    Unclear,
}

impl Shape {
    fn and(self, o: Shape) -> Shape {
        match (self, o) {
            (Shape::Bad, _) | (_, Shape::Bad) => Shape::Bad,
            (Shape::Unclear, _) | (_, Shape::Unclear) => Shape::Unclear,
            _ => Shape::Good,
        }
    }
}

fn int_shape(v: Option<&Value>) -> Shape {
    match v {
        Some(Value::Number(n)) => {
            if let Some(i) = n.as_i64() {
                if i >= i32::MIN as i64 && i <= i32::MAX as i64 {
                    Shape::Good
                } else {
                    Shape::Bad
                }
            } else if n.is_u64() {
                Shape::Bad
            } else if n.as_f64().map_or(false, |f| f.fract() == 0.0) {
                // 3.0 and -0: integers to some readers.
                Shape::Unclear
            } else {
                Shape::Bad
            }
        }
        _ => Shape::Bad,
    }
}

fn opt(v: Option<&Value>, f: impl Fn(&Value) -> Shape) -> Shape {
    match v {
        None | Some(Value::Null) => Shape::Good,
        Some(v) => f(v),
    }
}

fn string(v: &Value) -> Shape {
    if v.is_string() {
        Shape::Good
    } else {
        Shape::Bad
    }
}

fn list(v: &Value, f: impl Fn(&Value) -> Shape) -> Shape {
    match v {
        Value::Array(a) => a.iter().fold(Shape::Good, |s, x| s.and(f(x))),
        _ => Shape::Bad,
    }
}

fn shape(v: &Value) -> Shape {
    let m = match v {
        Value::Object(m) => m,
        // The members in order; no reader needs to take that.
        Value::Array(_) => return Shape::Unclear,
        _ => return Shape::Bad,
    };
    int_shape(m.get("version"))
        .and(opt(m.get("sources"), |v| list(v, string)))
        .and(opt(m.get("names"), |v| list(v, string)))
        .and(opt(m.get("mappings"), string))
        .and(opt(m.get("file"), string))
        .and(opt(m.get("sourceRoot"), string))
        .and(opt(m.get("sourcesContent"), |v| list(v, |e| opt(Some(e), string))))
        .and(opt(m.get("sections"), |v| list(v, section)))
}

fn section(v: &Value) -> Shape {
    let m = match v {
        Value::Object(m) => m,
        Value::Array(_) => return Shape::Unclear,
        _ => return Shape::Bad,
    };
    let off = match m.get("offset") {
        Some(Value::Object(o)) => int_shape(o.get("line")).and(int_shape(o.get("column"))),
        Some(Value::Array(_)) => Shape::Unclear,
        _ => Shape::Bad,
    };
    off.and(m.get("map").map_or(Shape::Bad, shape)).and(opt(m.get("url"), string))
}

/// Whether the names are surely resolvable.
fn tame(m: &Map<String, Value>) -> bool {
    let ok = |s: &str| {
        s.chars().next().map_or(false, |c| c.is_ascii_alphabetic())
            && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '/' || c == '_')
    };
    let root = m.get("sourceRoot").and_then(|r| r.as_str()).map_or(true, ok);
    let sources = m
        .get("sources")
        .and_then(|s| s.as_array())
        .map_or(true, |a| a.iter().all(|s| s.as_str().map_or(false, ok)));
    root && sources
}

fn absent(m: &Map<String, Value>, k: &str) -> bool {
    m.get(k).map_or(true, |v| v.is_null())
}

/// What a well-formed JSON text must be opened as.
fn classify(v: &Value) -> Kind {
    match shape(v) {
        Shape::Bad => return Kind::Error,
        Shape::Unclear => return Kind::Free,
        Shape::Good => {}
    }
    let Value::Object(m) = v else { return Kind::Free };
    if m["version"] != json!(3) {
        return Kind::Refused;
    }
    if let Some(Value::Array(ss)) = m.get("sections") {
        let mut last = (0i64, 0i64);
        for s in ss {
            let o = |k: &str| s["offset"][k].as_i64().unwrap_or(0);
            let (l, c) = (o("line"), o("column"));
            if l < 0 || c < 0 || l > 1 << 29 || c > 1 << 29 {
                return Kind::Free;
            }
            if (l, c) < last || !s["url"].is_null() {
                return Kind::Refused;
            }
            last = (l, c);
            let Value::Object(n) = &s["map"] else { return Kind::Free };
            if !absent(n, "sections") {
                return Kind::Free;
            }
            if n["version"] != json!(3) || absent(n, "sources") {
                return Kind::Refused;
            }
            if !tame(n) {
                return Kind::Free;
            }
        }
        return Kind::Sectioned;
    }
    if absent(m, "sources") {
        return Kind::Refused;
    }
    if tame(m) {
        Kind::Plain
    } else {
        Kind::Free
    }
}

#[derive(Debug, PartialEq)]
enum Got {
    Error,
    Panic(String),
    Plain,
    Sectioned,
}

fn open_any(text: &str, url: Option<&str>) -> Got {
    match call(|| create_consumer(text, url)) {
        Err(p) => Got::Panic(p),
        Ok(Err(_)) => Got::Error,
        Ok(Ok(Consumer::BasicConsumer(_))) => Got::Plain,
        Ok(Ok(Consumer::IndexedConsumer(_))) => Got::Sectioned,
    }
}

fn judge(text: &str, want: Kind, got: &Got) -> Result<(), String> {
    let ok = match (want, got) {
        (Kind::Free, _) => true,
        (Kind::Error, Got::Error) => true,
        (Kind::Refused, Got::Error | Got::Panic(_)) => true,
        (Kind::Plain, Got::Plain) => true,
        (Kind::Sectioned, Got::Sectioned) => true,
        _ => false,
    };
    ensure!(ok, "opening {:?}: expected {:?}, got {:?}", text, want, got);
    Ok(())
}

fn note(o: &mut Obs, k: Kind) {
    o.class(match k {
        Kind::Error => "malformed",
        Kind::Refused => "refused",
        Kind::Plain => "plain",
        Kind::Sectioned => "sectioned",
        Kind::Free => "no expectation",
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// Replace the k-th value of the tree.
    Put(u16, Value),
    /// Remove the k-th value from its parent.
    Cut(u16),
    /// Add a member to the k-th object.
    Add(u16, String, Value),
    /// Set a member of the format on the k-th object.
    Set(u16, String, Value),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Edited {
    base: u8,
    sects: Vec<SectC>,
    edits: Vec<Edit>,
    /// 0 compact, 1 pretty, 2 members reversed, 3 everything escaped, 4 surrounded by white space
    style: u8,
    url: Option<String>,
}

fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<String>) {
    out.push(at.iter().map(|s| format!("/{}", s.replace('~', "~0").replace('/', "~1"))).collect());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        }
        _ => {}
    }
}

fn apply(v: &mut Value, e: &Edit) {
    let mut ps = vec![];
    paths(v, &mut vec![], &mut ps);
    match e {
        Edit::Put(k, x) => {
            let p = &ps[*k as usize % ps.len()];
            if let Some(t) = v.pointer_mut(p) {
                *t = x.clone();
            }
        }
        Edit::Cut(k) => {
            let p = ps[*k as usize % ps.len()].clone();
            let Some(cut) = p.rfind('/') else { return };
            let (parent, last) = (&p[..cut], p[cut + 1..].replace("~1", "/").replace("~0", "~"));
            match v.pointer_mut(parent) {
                Some(Value::Object(m)) => {
                    m.remove(&last);
                }
                Some(Value::Array(a)) => {
                    if let Ok(i) = last.parse::<usize>() {
                        a.remove(i);
                    }
                }
                _ => {}
            }
        }
        Edit::Add(k, name, x) | Edit::Set(k, name, x) => {
            let objs: Vec<String> = ps.into_iter().filter(|p| v.pointer(p).map_or(false, |t| t.is_object())).collect();
            if objs.is_empty() {
                return;
            }
            let p = &objs[*k as usize % objs.len()];
            if let Some(Value::Object(m)) = v.pointer_mut(p) {
                m.insert(name.clone(), x.clone());
            }
        }
    }
}

fn print(v: &Value, reverse: bool, escape: bool, out: &mut String) {
    let text = |s: &str, out: &mut String| {
        if escape {
            out.push('"');
            for u in s.encode_utf16() {
                out.push_str(&format!("\\u{:04x}", u));
            }
            out.push('"');
        } else {
            out.push_str(&Value::String(s.into()).to_string());
        }
    };
    match v {
        Value::Object(m) => {
            let mut ks: Vec<&String> = m.keys().collect();
            if reverse {
                ks.reverse();
            }
            out.push('{');
            for (i, k) in ks.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                text(k, out);
                out.push(':');
                print(&m[*k], reverse, escape, out);
            }
            out.push('}');
        }
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                print(x, reverse, escape, out);
            }
            out.push(']');
        }
        Value::String(s) => text(s, out),
        o => out.push_str(&o.to_string()),
    }
}

fn styled(v: &Value, style: u8) -> String {
    let mut s = String::new();
    match style {
        1 => serde_json::to_string_pretty(v).unwrap_or_default(),
        2 => {
            print(v, true, false, &mut s);
            s
        }
        3 => {
            print(v, false, true, &mut s);
            s
        }
        4 => format!(" \n\t{} \r\n", v),
        _ => v.to_string(),
    }
}

fn c24_edited(c: &Edited, o: &mut Obs) -> Result<(), String> {
    let x = build_index(&c.sects, None);
    let mut v = match (c.base % 3, x.sects.first()) {
        (0, Some(s)) => s.doc.json.clone(),
        (1, _) => x.json.clone(),
        (_, Some(s)) => {
            // Both kinds of member at once: the sections decide.
            let mut m = s.doc.json.clone();
            m["sections"] = x.json["sections"].clone();
            m
        }
        _ => json!({"version": 3}),
    };
    let before = classify(&v);
    for e in &c.edits {
        apply(&mut v, e);
    }
    let want = classify(&v);
    let text = styled(&v, c.style);
    let got = open_any(&text, c.url.as_deref());
    judge(&text, want, &got)?;
    note(o, want);
    o.class_if(want != before, "edits change the expectation");
    o.nontrivial_if(want != Kind::Free && !c.edits.is_empty());
    Ok(())
}

fn junk() -> BoxedStrategy<Value> {
    prop_oneof![
        3 => Just(Value::Null),
        4 => select(vec![json!(0), json!(1), json!(2), json!(3), json!(4), json!(-1), json!(-3), json!(i32::MAX),
            json!(2147483648u32), json!(-2147483648i64), json!(-2147483649i64), json!(4294967299u64), json!(18446744073709551615u64),
            json!(3.5), json!(3.0), json!(1e300)]),
        2 => select(vec!["", "3", "a.js", "AAAA", "http://h.example/x.map", "null"]).prop_map(|s| json!(s)),
        1 => any::<bool>().prop_map(|b| json!(b)),
        1 => prop_oneof![dict::text().prop_map(|s| json!(s)), dict::number(i32::MAX as u32).prop_map(|n| json!(n)), dict::number(i32::MAX as u32).prop_map(|n| json!(-(n as i64)))],
        3 => select(vec![json!([]), json!([null]), json!(["a.js"]), json!([3]), json!([[]]), json!([{}]), json!({}),
            json!({"line": 0, "column": 0}), json!({"version": 3}), json!({"version": 3, "sources": [], "mappings": ""}),
            json!([{"offset": {"line": 0, "column": 0}, "map": {"version": 3, "sources": [], "names": [], "mappings": ""}}]),
            json!({"0": 3})]),
    ]
    .boxed()
}

fn edit() -> BoxedStrategy<Edit> {
    let member = || select(vec!["version", "sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections", "offset", "map", "url", "line", "column"]).prop_map(String::from);
    let other = prop_oneof![
        select(vec!["x_google_ignoreList", "debugId", "Version", "source", "source_root", "sources_content", "lineCount", "x", ""]).prop_map(String::from),
        text(),
        dict::text(),
    ];
    prop_oneof![
        4 => (any::<u16>(), junk()).prop_map(|(k, v)| Edit::Put(k, v)),
        3 => any::<u16>().prop_map(Edit::Cut),
        2 => (any::<u16>(), other, junk()).prop_map(|(k, n, v)| Edit::Add(k, n, v)),
        4 => (any::<u16>(), member(), junk()).prop_map(|(k, n, v)| Edit::Set(k, n, v)),
    ]
    .boxed()
}

fn small_sects(max: usize) -> BoxedStrategy<Vec<SectC>> {
    let src = select(vec!["a.js", "b.js", "dir/c.js"]).prop_map(String::from).boxed();
    let root = prop_oneof![3 => Just(None), 1 => Just(Some("root".to_string()))].boxed();
    let doc = docc_with(false, src, root, 0).prop_map(|mut d| {
        d.segs.truncate(3);
        d
    });
    proptest::collection::vec((0u32..3, 0u32..3, doc).prop_map(|(dl, dc, doc)| SectC { dl, dc, doc }), 1..=max).boxed()
}

fn edited(_: bool) -> BoxedStrategy<Edited> {
    let url = prop_oneof![4 => Just(None), 1 => Just(Some("http://m.example/out/min.js.map".to_string()))];
    (0u8..3, small_sects(3), proptest::collection::vec(edit(), 0..5), 0u8..5, url)
        .prop_map(|(base, sects, edits, style, url)| Edited { base, sects, edits, style, url })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Text {
    /// None: free text.
    base: Option<SectC>,
    sectioned: bool,
    text: String,
    /// (place, remove this many characters, put this instead)
    cuts: Vec<(u32, u8, String)>,
}

const MEMBERS: [&str; 12] = [
    "version", "sources", "names", "mappings", "file", "sourceRoot", "sourcesContent", "sections",
    "offset", "map", "url", "line",
];

/// Whether some object may repeat a member, which no two readers agree about.
fn repeats(text: &str) -> bool {
    text.contains("\\u")
        || MEMBERS.iter().any(|m| text.matches(&format!("\"{}\"", m)).count() > 1)
}

fn c24_text(c: &Text, o: &mut Obs) -> Result<(), String> {
    let mut t: Vec<char> = match &c.base {
        None => c.text.chars().collect(),
        Some(s) => {
            let x = build_index(std::slice::from_ref(s), None);
            if c.sectioned { x.json.to_string() } else { x.sects[0].doc.json.to_string() }.chars().collect()
        }
    };
    for (at, n, put) in &c.cuts {
        let i = *at as usize % (t.len() + 1);
        let j = (i + *n as usize).min(t.len());
        t.splice(i..j, put.chars());
    }
    let text: String = t.into_iter().collect();
    let json_ok = serde_json::from_str::<serde::de::IgnoredAny>(&text).is_ok();
    let want = if !json_ok {
        Kind::Error
    } else {
        match serde_json::from_str::<Value>(&text) {
            Ok(v) if !repeats(&text) || !v.is_object() => classify(&v),
            _ => Kind::Free,
        }
    };
    let got = open_any(&text, None);
    judge(&text, want, &got)?;
    note(o, want);
    o.class_if(!json_ok, "not JSON");
    o.nontrivial_if(want != Kind::Free && text.len() > 1);
    Ok(())
}

fn texts(_: bool) -> BoxedStrategy<Text> {
    let put = prop_oneof![
        2 => Just(String::new()),
        3 => select(vec!["{", "}", "[", "]", "\"", ":", ",", "0", "3", "-", ".", "e9", "null", "true", "\\", "\u{0}", "\u{feff}", " ", "\n", ")]}'\n",
            "//", "\"version\":3", "{\"version\":3,\"sources\":[]}", "NaN", "\\ud800", "é", "'"]).prop_map(String::from),
        1 => text(),
    ];
    let cut = (any::<u32>(), prop_oneof![4 => Just(0u8), 4 => Just(1u8), 2 => 0u8..8, 1 => any::<u8>()], put);
    let free = prop_oneof![
        1 => text(),
        1 => select(vec!["", "{}", "[]", "null", "3", "\"\"", "{\"version\":3}", ")]}'\n{\"version\":3,\"sources\":[],\"mappings\":\"\"}", "true", "{\"version\":3,\"sources\":[\"a.js\"]}"]).prop_map(String::from),
        1 => proptest::collection::vec(select(vec!['{', '}', '[', ']', '"', ':', ',', '1', 'n', 'a', ' ', '\\']), 0..24).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (prop_oneof![1u32..40, 100u32..3000], any::<bool>()).prop_map(|(n, close)| {
            let mut s = "{\"x\":".to_string() + &"[".repeat(n as usize);
            if close {
                s += &"]".repeat(n as usize);
                s += ",\"version\":3,\"sources\":[]}";
            }
            s
        }),
    ];
    let sect = small_sects(1).prop_map(|mut v| v.remove(0));
    (proptest::option::weighted(0.75, sect), any::<bool>(), free, proptest::collection::vec(cut, 0..4))
        .prop_map(|(base, sectioned, text, cuts)| Text { base, sectioned, text, cuts })
        .boxed()
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Harm {
    Insert(u16, String),
    Replace(u16, String),
    Delete(u16, u8),
    CutAt(u16),
    Append(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damaged {
    doc: DocC,
    harm: Vec<Harm>,
    reqs: Vec<ReqC>,
    /// 0 plain; 1 sectioned, damaged one first; 2 sectioned, damaged one last
    place: u8,
    other: DocC,
}

fn damage(t: &str, harm: &[Harm]) -> String {
    let mut v: Vec<char> = t.chars().collect();
    for h in harm {
        match h {
            Harm::Insert(k, s) => {
                let i = *k as usize % (v.len() + 1);
                v.splice(i..i, s.chars());
            }
            Harm::Replace(k, s) => {
                if !v.is_empty() {
                    let i = *k as usize % v.len();
                    v.splice(i..i + 1, s.chars());
                }
            }
            Harm::Delete(k, n) => {
                if !v.is_empty() {
                    let i = *k as usize % v.len();
                    let j = (i + *n as usize).min(v.len());
                    v.drain(i..j);
                }
            }
            Harm::CutAt(k) => {
                let n = v.len() + 1;
                v.truncate(*k as usize % n);
            }
            Harm::Append(s) => v.extend(s.chars()),
        }
    }
    v.into_iter().collect()
}

fn c25(c: &Damaged, o: &mut Obs) -> Result<(), String> {
    let mut d = build(&c.doc, None);
    let whole = d.json["mappings"].as_str().unwrap_or("").to_string();
    let text = damage(&whole, &c.harm);
    let bad = match vlq::decode_mappings(&text) {
        Ok(_) => {
            o.class("still well-formed");
            return Ok(());
        }
        Err(Bad::Extra) => {
            o.class("extra fields, excluded");
            return Ok(());
        }
        Err(b) => b,
    };
    o.class(match bad {
        Bad::Char => "foreign character",
        Bad::Truncated => "truncated number",
        Bad::TooBig => "number too big",
        Bad::Negative => "negative number",
        Bad::Fields => "two or three fields",
        Bad::Extra => "",
    });
    // What a tolerant reader might take from before the damage.
    let lead = text.chars().zip(whole.chars()).take_while(|(a, b)| a == b).count();
    o.class_if(lead > 4, "damage after good segments");
    o.nontrivial_if(lead > 4);
    d.json["mappings"] = json!(text);
    let reqs: Vec<Req> = c.reqs.iter().map(|r| r.for_doc(&d)).collect();

    if c.place == 0 {
        let mut b = super::lookup::open(&d.text(), None)?;
        for (i, r) in reqs.iter().enumerate() {
            let a = ask_basic(&mut b, r);
            ensure!(!a.delivers_mapping(), "mappings {:?} are corrupt ({:?}), but {:?} is answered {:?} (after {:?})", text, bad, r, a, &reqs[..i]);
        }
        o.class("plain map");
        return Ok(());
    }

    // One damaged section, one whole one, 100000 lines apart.
    const FAR: u32 = 100_000;
    let mut good = build(&c.other, None);
    good.segs.retain(|s| s.gl < FAR);
    let (first, last) = if c.place == 1 { (&d, &good) } else { (&good, &d) };
    let doc = json!({"version": 3, "sections": [
        {"offset": {"line": 0, "column": 0}, "map": first.json},
        {"offset": {"line": FAR, "column": 0}, "map": last.json},
    ]});
    let mut x = call(|| IndexedConsumer::new(&doc.to_string(), None))?;
    // Zero-based lines of the damaged section.
    let theirs = |l: i64| if c.place == 1 { l < FAR as i64 } else { l >= FAR as i64 };
    let mut asked = reqs.clone();
    for r in &mut asked {
        if let Req::Fwd { line, .. } = r {
            if c.place == 2 && *line < i32::MAX - FAR as i32 {
                *line += FAR as i32;
            }
        }
    }
    for (i, r) in asked.iter().enumerate() {
        let a = ask_indexed(&mut x, r);
        let leak = match &a {
            Ans::Found(Some(f)) => theirs(f.gen.0 as i64 - 1),
            Ans::GenPos(Some(p)) => theirs(p.0 as i64 - 1),
            Ans::Recs(v) => v.iter().any(|m| theirs(m.gl as i64)),
            _ => false,
        };
        ensure!(!leak, "mappings {:?} of section {} are corrupt ({:?}), but {:?} is answered {:?} (after {:?})", text, c.place - 1, bad, r, a, &asked[..i]);
    }
    o.class("sectioned map");
    Ok(())
}

fn damaged(deep: bool) -> BoxedStrategy<Damaged> {
    let foreign = || select(vec!["!", " ", "\n", "_", "-", "=", ".", "\u{0}", "\u{7f}", "é", "\u{80}", "Ā", "\"", "\\", "#", "@", "[", "`", "{", "*", ":", "<"]).prop_map(String::from);
    let digits = || {
        prop_oneof![
            4 => select(vec!["A", "B", "C", "D", "E", "f", "g", "h", "+", "/", "9", "z", "Z"]).prop_map(String::from),
            2 => select(vec!["gggggg", "////", "+/+/+/+/+/B", "ggggggggggggggggggggB", "gggggggE", "hgggggE", "+/////D", "//////D", "ggggggI", "//////////////////D"]).prop_map(String::from),
            2 => proptest::collection::vec(select(vec!['A', 'C', 'D', 'g', 'h', '/', ',', ';', 'J']), 1..6).prop_map(|v| v.into_iter().collect::<String>()),
            1 => select(vec![",", ";", ",,", ";;", "A,", ",AA", ";AAA"]).prop_map(String::from),
        ]
    };
    let harm = prop_oneof![
        4 => (any::<u16>(), foreign()).prop_map(|(k, s)| Harm::Insert(k, s)),
        2 => (any::<u16>(), foreign()).prop_map(|(k, s)| Harm::Replace(k, s)),
        4 => (any::<u16>(), digits()).prop_map(|(k, s)| Harm::Insert(k, s)),
        4 => (any::<u16>(), digits()).prop_map(|(k, s)| Harm::Replace(k, s)),
        3 => (any::<u16>(), 1u8..4).prop_map(|(k, n)| Harm::Delete(k, n)),
        2 => any::<u16>().prop_map(Harm::CutAt),
        2 => digits().prop_map(Harm::Append),
        1 => foreign().prop_map(Harm::Append),
    ];
    let src = || select(vec!["a.js", "b.js", "c.js"]).prop_map(String::from).boxed();
    let doc = docc_with(deep, src(), Just(None).boxed(), 1);
    let other = docc_with(false, src(), Just(None).boxed(), 1).prop_map(|mut d| {
        d.segs.truncate(3);
        for s in &mut d.segs {
            s.gl %= 50;
        }
        d
    });
    let req = prop_oneof![3 => fwdc(), 3 => revc(), 2 => allc(), 3 => any::<bool>().prop_map(|original| ReqC::Each { original }), 1 => Just(ReqC::Spans)];
    (doc, proptest::collection::vec(harm, 1..4), proptest::collection::vec(req, 1..8), prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], other)
        .prop_map(|(doc, harm, reqs, place, other)| Damaged { doc, harm, reqs, place, other })
        .boxed()
}

// ------------------------------------------------------------------ C31

/// A member: absent, null, or a value.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum M<T> {
    No,
    Null,
    Is(T),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tree {
    version: i32,
    sources: M<Vec<String>>,
    names: M<Vec<String>>,
    mappings: M<String>,
    file: M<String>,
    root: M<String>,
    contents: M<Vec<Option<String>>>,
    sections: M<Vec<Part>>,
    unknown: Option<(String, Value)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Part {
    line: i32,
    col: i32,
    map: Tree,
    url: M<String>,
}

fn put<T: Serialize>(m: &mut Map<String, Value>, k: &str, v: &M<T>) {
    match v {
        M::No => {}
        M::Null => {
            m.insert(k.into(), Value::Null);
        }
        M::Is(x) => {
            m.insert(k.into(), json!(x));
        }
    }
}

fn tree_json(t: &Tree) -> Value {
    let mut m = Map::new();
    if let Some((k, v)) = &t.unknown {
        m.insert(k.clone(), v.clone());
    }
    m.insert("version".into(), json!(t.version));
    put(&mut m, "sources", &t.sources);
    put(&mut m, "names", &t.names);
    put(&mut m, "mappings", &t.mappings);
    put(&mut m, "file", &t.file);
    put(&mut m, "sourceRoot", &t.root);
    put(&mut m, "sourcesContent", &t.contents);
    match &t.sections {
        M::No => {}
        M::Null => {
            m.insert("sections".into(), Value::Null);
        }
        M::Is(ps) => {
            let v: Vec<Value> = ps
                .iter()
                .map(|p| {
                    let mut s = Map::new();
                    s.insert("offset".into(), json!({"line": p.line, "column": p.col}));
                    s.insert("map".into(), tree_json(&p.map));
                    put(&mut s, "url", &p.url);
                    Value::Object(s)
                })
                .collect();
            m.insert("sections".into(), Value::Array(v));
        }
    }
    Value::Object(m)
}

/// The same without unknown members and with null members absent.
fn canonical(v: &Value) -> Value {
    match v {
        Value::Object(m) => Value::Object(
            m.iter()
                .filter(|(k, v)| !v.is_null() && (MEMBERS.contains(&k.as_str()) || *k == "column"))
                .map(|(k, v)| (k.clone(), canonical(v)))
                .collect(),
        ),
        Value::Array(a) => Value::Array(a.iter().map(canonical).collect()),
        o => o.clone(),
    }
}

fn c31(c: &Tree, o: &mut Obs) -> Result<(), String> {
    let v = tree_json(c);
    let text = v.to_string();
    let p = call(|| serde_json::from_str::<SourceMapJson>(&text))?.map_err(|e| format!("parsing {}: {}", text, e))?;
    let once = call(|| serde_json::to_string(&p))?.map_err(|e| format!("writing {}: {}", text, e))?;
    let back: Value = serde_json::from_str(&once).map_err(|e| format!("written {:?} is not JSON: {}", once, e))?;
    ensure!(canonical(&back) == canonical(&v), "{} comes back as {}", text, once);
    ensure!(only_format(&back), "{} comes back with members it did not have: {}", text, once);
    // A clone is written like the original.
    let cl = call(|| serde_json::to_string(&p.clone()))?.map_err(|e| e.to_string())?;
    ensure!(cl == once, "a clone of {} is written as {}", once, cl);
    let p2 = serde_json::from_str::<SourceMapJson>(&once).map_err(|e| format!("parsing {}: {}", once, e))?;
    let twice = serde_json::to_string(&p2).map_err(|e| e.to_string())?;
    ensure!(twice == once, "a second round trip turns {} into {}", once, twice);
    let nested = matches!(&c.sections, M::Is(s) if !s.is_empty());
    o.class_if(nested, "sections");
    o.class_if(matches!(&c.contents, M::Is(k) if k.iter().any(|e| e.is_none())), "null content");
    o.class_if(c.unknown.is_some(), "unknown member");
    o.class_if(matches!(c.sources, M::Null) || matches!(c.root, M::Null) || matches!(c.contents, M::Null), "null member");
    o.nontrivial_if(nested || matches!(&c.contents, M::Is(k) if !k.is_empty()) || matches!(&c.sources, M::Is(k) if k.len() > 1));
    Ok(())
}

/// Only members of the format are written (any that is absent only as null).
fn only_format(v: &Value) -> bool {
    match v {
        Value::Object(m) => m.iter().all(|(k, v)| (MEMBERS.contains(&k.as_str()) || k == "column") && only_format(v)),
        Value::Array(a) => a.iter().all(only_format),
        _ => true,
    }
}

fn member<T: Clone + std::fmt::Debug + 'static>(s: BoxedStrategy<T>) -> BoxedStrategy<M<T>> {
    prop_oneof![1 => Just(M::No), 1 => Just(M::Null), 4 => s.prop_map(M::Is)].boxed()
}

fn tree(depth: u32) -> BoxedStrategy<Tree> {
    let strs = || proptest::collection::vec(text(), 0..4).boxed();
    let ver = prop_oneof![6 => Just(3i32), 1 => any::<i32>()];
    let sections: BoxedStrategy<M<Vec<Part>>> = if depth == 0 {
        prop_oneof![4 => Just(M::No), 1 => Just(M::Null), 1 => Just(M::Is(vec![]))].boxed()
    } else {
        let n = || prop_oneof![3 => 0i32..5, 1 => any::<i32>()];
        let part = (n(), n(), tree(depth - 1), member(text()))
            .prop_map(|(line, col, map, url)| Part { line, col, map, url });
        prop_oneof![2 => Just(M::No), 1 => Just(M::Null), 3 => proptest::collection::vec(part, 0..3).prop_map(M::Is)].boxed()
    };
    let unknown = proptest::option::weighted(0.2, (select(vec!["x", "debugId", "ignoreList", "Sources", "source_root"]).prop_map(String::from), junk()));
    let cont = proptest::collection::vec(proptest::option::weighted(0.7, text()), 0..4).boxed();
    (ver, member(strs()), member(strs()), member(text()), member(text()), member(text()), member(cont), sections, unknown)
        .prop_map(|(version, sources, names, mappings, file, root, contents, sections, unknown)| Tree {
            version, sources, names, mappings, file, root, contents, sections, unknown,
        })
        .boxed()
}

// ------------------------------------------------------------------ C32

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ways {
    sects: Vec<SectC>,
    sectioned: bool,
    map_url: Option<String>,
    reqs: Vec<ReqC>,
    typed: bool,
}

fn c32(c: &Ways, o: &mut Obs) -> Result<(), String> {
    let url = c.map_url.as_deref();
    let x = build_index(&c.sects, url);
    let (json, reqs): (&Value, Vec<Req>) = if c.sectioned {
        (&x.json, c.reqs.iter().map(|r| r.for_index(&x)).collect())
    } else {
        (&x.sects[0].doc.json, c.reqs.iter().map(|r| r.for_doc(&x.sects[0].doc)).collect())
    };
    let text = json.to_string();
    let at = |w: &str| format!("{} (map URL {:?}) opened {}", text, url, w);
    let mut all: Vec<(&str, Vec<Ans>)> = vec![];
    let script = |reqs: &[Req]| -> Vec<Req> {
        let mut v = vec![Req::Sources];
        v.extend(reqs.iter().cloned());
        v.push(Req::Sources);
        v
    };
    let reqs = script(&reqs);

    let mut general = call(|| create_consumer(&text, url))
        .map_err(|e| format!("{} panics: {}", at("generally"), e))?
        .map_err(|e| format!("{} fails: {}", at("generally"), e))?;
    ensure!(matches!(general, Consumer::IndexedConsumer(_)) == c.sectioned, "{} is of the wrong kind", at("generally"));
    ensure!(general.try_as_basic_consumer().is_some() != c.sectioned, "{}: try_as_basic_consumer disagrees", at("generally"));
    ensure!(general.try_as_indexed_consumer().is_some() == c.sectioned, "{}: try_as_indexed_consumer disagrees", at("generally"));
    ensure!(general.try_as_basic_consumer_mut().is_some() != c.sectioned, "{}: try_as_basic_consumer_mut disagrees", at("generally"));
    ensure!(general.try_as_indexed_consumer_mut().is_some() == c.sectioned, "{}: try_as_indexed_consumer_mut disagrees", at("generally"));
    let r = call(|| { general.as_basic_consumer(); });
    ensure!(r.is_ok() != c.sectioned, "{}: as_basic_consumer disagrees", at("generally"));
    let r = call(|| { general.as_indexed_consumer(); });
    ensure!(r.is_ok() == c.sectioned, "{}: as_indexed_consumer disagrees", at("generally"));
    let r = call(|| { general.as_basic_consumer_mut(); });
    ensure!(r.is_ok() != c.sectioned, "{}: as_basic_consumer_mut disagrees", at("generally"));
    let r = call(|| { general.as_indexed_consumer_mut(); });
    ensure!(r.is_ok() == c.sectioned, "{}: as_indexed_consumer_mut disagrees", at("generally"));
    all.push(("generally", reqs.iter().map(|r| match (c.typed, c.sectioned) {
        (false, _) => ask(&mut general, r),
        (true, true) => ask_indexed(general.as_indexed_consumer_mut(), r),
        (true, false) => ask_basic(general.as_basic_consumer_mut(), r),
    }).collect()));

    let parsed = || serde_json::from_str::<SourceMapJson>(&text).map_err(|e| e.to_string());
    let scoped: Cell<Option<Vec<Ans>>> = Cell::new(None);
    if c.sectioned {
        let mut b = call(|| IndexedConsumer::new(&text, url)).map_err(|e| format!("{} panics: {}", at("directly"), e))?;
        all.push(("directly", reqs.iter().map(|r| ask_indexed(&mut b, r)).collect()));
        let p = parsed()?;
        let mut b = call(|| IndexedConsumer::from_source_map_json(p, url)).map_err(|e| format!("{} panics: {}", at("from the parsed document"), e))?;
        all.push(("from the parsed document", reqs.iter().map(|r| ask_indexed(&mut b, r)).collect()));
        call(|| IndexedConsumer::consume(text.clone(), url.unwrap_or("").to_string(), |mut b| {
            scoped.set(Some(reqs.iter().map(|r| ask_indexed(&mut b, r)).collect()));
        }))
    } else {
        let mut b = call(|| BasicConsumer::new(&text, url)).map_err(|e| format!("{} panics: {}", at("directly"), e))?;
        all.push(("directly", reqs.iter().map(|r| ask_basic(&mut b, r)).collect()));
        let p = parsed()?;
        let mut b = call(|| BasicConsumer::from_source_map_json(p, url)).map_err(|e| format!("{} panics: {}", at("from the parsed document"), e))?;
        all.push(("from the parsed document", reqs.iter().map(|r| ask_basic(&mut b, r)).collect()));
        call(|| BasicConsumer::consume(text.clone(), url.unwrap_or("").to_string(), |mut b| {
            scoped.set(Some(reqs.iter().map(|r| ask_basic(&mut b, r)).collect()));
        }))
    }
    .map_err(|e| format!("{} panics: {}", at("for scoped use"), e))?;
    match scoped.take() {
        Some(v) => all.push(("for scoped use", v)),
        None => return Err(format!("{} never reaches the callback", at("for scoped use"))),
    }

    // The stated sources, so that all ways being wrong alike is noticed too.
    let want: Vec<String> = if c.sectioned {
        x.sects.iter().flat_map(|s| s.doc.resolved.clone()).collect()
    } else {
        x.sects[0].doc.resolved.clone()
    };
    ensure!(all[0].1[0] == Ans::List(want.clone()), "{} lists {:?}, expected {:?}", at("generally"), all[0].1[0], want);
    let clean = |v: &Vec<Ans>| -> Vec<Ans> {
        v.iter().map(|a| if let Ans::Panic(_) = a { Ans::Panic(String::new()) } else { a.clone() }).collect()
    };
    let first = clean(&all[0].1);
    for (w, v) in &all[1..] {
        let v = clean(v);
        for (i, (p, q)) in first.iter().zip(&v).enumerate() {
            ensure!(p == q, "{} answers {:?} with {:?}, opened generally with {:?}", at(w), reqs[i], q, p);
        }
    }
    let hits = all[0].1.iter().filter(|a| a.delivers_mapping()).count();
    o.class(if c.sectioned { "sectioned" } else { "plain" });
    o.class_if(c.map_url.is_some(), "map url");
    o.nontrivial_if(hits >= 1 && (c.map_url.is_some() || c.sectioned));
    Ok(())
}

fn ways(deep: bool) -> BoxedStrategy<Ways> {
    (sectcs(deep, 3), proptest::bool::weighted(0.35), plain_map_url(), proptest::collection::vec(reqc(), 1..6), any::<bool>())
        .prop_map(|(sects, sectioned, map_url, reqs, typed)| Ways { sectioned: sectioned || sects.is_empty(), sects, map_url, reqs, typed })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C24", assumptions: &[
            "serde_json decides what JSON is",
            "no expectation (but termination) for documents given as arrays, whole numbers written with a fraction, repeated members, nested sectioned maps and unusual source names",
        ], suites: vec![
            suite("edited", "plain, sectioned and mixed documents with 0-4 values anywhere replaced, removed or added, in five spellings of JSON; non-trivial: edited, with a definite expectation",
                80_000, 2_000_000, edited, c24_edited),
            suite("text", "document texts with 0-3 character-level cuts and insertions, and free texts; non-trivial: more than one character, with a definite expectation",
                80_000, 2_000_000, texts, c24_text)] },
        Property { id: "C25", assumptions: &["segments of more than five fields are excluded: readers differ on them"], suites: vec![
            suite("damage", "mappings texts with 1-3 insertions, replacements, deletions or truncations that the reference decoder rejects, plain or as one of two sections, then 1-7 requests; non-trivial: damage after at least one good segment",
                120_000, 1_500_000, damaged, c25)] },
        Property { id: "C31", assumptions: &["serde_json reads and writes JSON values correctly"], suites: vec![
            suite("roundtrip", "documents with every member absent, null or present, arbitrary strings, sections two levels deep; non-trivial: sections, contents or several sources",
                240_000, 1_500_000, |_| tree(2), c31)] },
        Property { id: "C32", assumptions: &["an empty map URL means none (the scoped entry point has no other way to say so)"], suites: vec![
            suite("ways", "plain and sectioned documents opened in four ways and asked 1-5 requests each; non-trivial: some answer delivers a mapping, with a map URL or sections",
                20_000, 500_000, ways, c32)] },
    ]
}
