//! Strategies. All indices into tables are raw numbers taken modulo the
//! table's length where they are used, so every generated case is in domain.

use crate::dict;
use crate::model::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// The largest zero-based number whose one-based counterpart is still an i32.
pub const MAXP: u32 = i32::MAX as u32 - 1;

fn around_powers() -> BoxedStrategy<u32> {
    (0u32..31, -2i64..=2)
        .prop_map(|(k, d)| ((1i64 << k) + d).clamp(0, MAXP as i64) as u32)
        .boxed()
}

/// A column or original line: mostly small so that positions collide.
pub fn coord() -> BoxedStrategy<u32> {
    prop_oneof![
        10 => 0u32..6,
        6 => 0u32..40,
        2 => 0u32..2000,
        2 => around_powers(),
        1 => (0u32..4).prop_map(|d| MAXP - d),
        1 => dict::number(MAXP),
    ]
    .boxed()
}

/// A generated line: each empty line costs a character of text.
pub fn gline() -> BoxedStrategy<u32> {
    prop_oneof![12 => 0u32..4, 4 => 0u32..30, 1 => prop_oneof![2 => 0u32..1200, 1 => dict::number(1200)]].boxed()
}

pub fn segc() -> BoxedStrategy<SegC> {
    let o = (any::<u16>(), coord(), coord(), proptest::option::weighted(0.4, prop_oneof![8 => 0u32..8, 2 => 0u32..65536, 1 => dict::number(65536)])).prop_map(
        |(src, line, col, name)| OrigC { src: src as u32, line, col, name },
    );
    (gline(), coord(), proptest::option::weighted(0.85, o))
        .prop_map(|(gl, gc, orig)| SegC { gl, gc, orig })
        .boxed()
}

/// Segments; some repeat the generated or original position of an earlier one.
pub fn segcs(deep: bool) -> BoxedStrategy<Vec<SegC>> {
    let one = (segc(), 0u8..8, any::<u16>());
    let big = if deep { 160usize } else { 60 };
    let huge = if deep { 600usize } else { 250 };
    let sizes = prop_oneof![
        4 => Just(0usize..=0),
        32 => Just(1usize..=6),
        32 => Just(4usize..=16),
        8 => Just(10usize..=big),
        1 => Just(big..=huge),
        2 => dict::number(huge as u32).prop_map(|n| n as usize..=n as usize),
    ];
    sizes
        .prop_flat_map(move |r| proptest::collection::vec(one.clone(), r))
        .prop_map(|v| {
            let mut out: Vec<SegC> = vec![];
            for (mut s, how, k) in v {
                if !out.is_empty() {
                    let e = &out[k as usize % out.len()];
                    match how {
                        0 => {
                            s.gl = e.gl;
                            s.gc = e.gc
                        }
                        1 => s.orig = e.orig.clone(),
                        2 => s.gl = e.gl,
                        3 => {
                            if let (Some(a), Some(b)) = (&mut s.orig, &e.orig) {
                                a.src = b.src;
                                a.line = b.line
                            }
                        }
                        _ => {}
                    }
                }
                out.push(s);
            }
            out
        })
        .boxed()
}

/// Source names for the suites that are not about URLs as such.
pub fn plain_source() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["a.js", "b.js", "c.js", "one.js", "two.js"]).prop_map(String::from),
        2 => select(vec!["dir/a.js", "dir/sub/b.js", "./a.js", "dir/../b.js", "../up.js", "x", "a b.js"])
            .prop_map(String::from),
        // Told apart from others only by case, accents, query or what follows.
        1 => select(vec!["A.js", "a.jsx", "a.js?1", "a.js?2", "a.js#1", "b.JS", "é.js", "e\u{301}.js", "Dir/a.js", "a.js/", "%61.js", "a", "a%20b.js"]).prop_map(String::from),
        1 => select(vec!["/abs/d.js", "/a.js", "http://other.example/e.js", "//cdn.example/f.js",
            "webpack://ns/src/g.js", "/the/root/a.js"]).prop_map(String::from),
        1 => dict::source(),
    ]
    .boxed()
}

pub fn plain_root() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        8 => Just(None),
        2 => Just(Some(String::new())),
        1 => (dict::segment(), select(vec!["", "/", "http://h.example/"])).prop_map(|(s, p)| Some(format!("{}{}", p, s))),
        8 => select(vec!["/the/root", "root", "root/", "../r", "http://h.example/src", "/", ".", "a/b/c"])
            .prop_map(|s| Some(s.to_string())),
    ]
    .boxed()
}

/// An absolute map URL, or none.
pub fn absolute_map_url() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        3 => Just(None),
        2 => select(vec!["http://m.example/out/min.js.map", "https://m.example/x.map",
            "file:///home/u/build/min.js.map"]).prop_map(|s| Some(s.to_string())),
    ]
    .boxed()
}

/// A map URL of any kind, mostly absolute, or none.
pub fn plain_map_url() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        12 => Just(None),
        1 => Just(Some(String::new())),
        2 => select(vec!["/dist/min.js.map", "dist/min.js.map", "min.js.map", "../m.map", "//m.example/x/y.map"]).prop_map(|s| Some(s.to_string())),
        8 => select(vec!["http://m.example/out/min.js.map", "https://m.example/x.map",
            "file:///home/u/build/min.js.map"]).prop_map(|s| Some(s.to_string())),
    ]
    .boxed()
}

/// Text of any content.
pub fn text() -> BoxedStrategy<String> {
    let ch = prop_oneof![
        6 => proptest::char::range(' ', '~'),
        1 => Just('"'), 1 => Just('\\'), 1 => Just('\n'), 1 => Just('\u{0}'),
        1 => Just('\u{2028}'), 1 => Just('\u{feff}'), 1 => Just('\u{7f}'),
        1 => proptest::char::range('\u{0}', '\u{1f}'),
        2 => proptest::char::range('\u{a0}', '\u{2fff}'),
        1 => proptest::char::range('\u{10000}', '\u{10ffff}'),
    ];
    prop_oneof![
        1 => Just(String::new()),
        6 => proptest::collection::vec(ch, 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        3 => select(vec!["a", "b", "foo", "bar", "constructor", "__proto__", "null", "0"]).prop_map(String::from),
        // Long ones.
        1 => ("[ -~é]{1,6}", 20usize..120).prop_map(|(s, n)| s.repeat(n)),
        1 => dict::text(),
        1 => (select(vec!["x", "é"]), dict::number(5000)).prop_map(|(s, n)| s.repeat(n as usize)),
    ]
    .boxed()
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        4 => select(vec!["foo", "bar", "baz", "n", "x", "toString", "$", "é"]).prop_map(String::from),
        1 => prop_oneof![3 => text(), 1 => dict::text()],
    ]
    .boxed()
}

pub fn contents(n: usize) -> BoxedStrategy<Option<Vec<Option<String>>>> {
    let entry = prop_oneof![
        1 => Just(None),
        3 => prop_oneof![
            4 => select(vec!["A", "B", "", "var x = 1;\n", "/* é */"]).prop_map(String::from),
            1 => text()
        ].prop_map(Some),
    ];
    let full = proptest::collection::vec(entry.clone(), n);
    let all = proptest::collection::vec(text().prop_map(Some), n);
    let short = proptest::collection::vec(entry.clone(), 0..=n);
    // More entries than sources; the excess ones belong to nothing.
    let long = (proptest::collection::vec(entry, n), proptest::collection::vec(text().prop_map(Some), 1..4)).prop_map(|(mut v, w)| {
        v.extend(w);
        v
    });
    prop_oneof![
        1 => long.prop_map(Some),
        2 => Just(None),
        4 => full.prop_map(Some),
        2 => all.prop_map(Some),
        2 => short.prop_map(Some),
    ]
    .boxed()
}

pub fn docc_with(
    deep: bool,
    source: BoxedStrategy<String>,
    root: BoxedStrategy<Option<String>>,
    min_sources: usize,
) -> BoxedStrategy<DocC> {
    let many = |n: std::ops::RangeInclusive<usize>| prop_oneof![24 => Just(n), 1 => Just(6usize..=70), 1 => dict::number(150).prop_map(|n| n as usize..=n as usize)];
    let numbered = (0u32..200).prop_map(|i| format!("src/s{}.js", i)).boxed();
    let source = prop_oneof![5 => source, 1 => numbered];
    let numbered = (0u32..200).prop_map(|i| format!("n{}", i)).boxed();
    let name = prop_oneof![5 => name(), 1 => numbered];
    (
        many(min_sources..=5).prop_flat_map(move |n| proptest::collection::vec(source.clone(), n)),
        many(0..=4).prop_flat_map(move |n| proptest::collection::vec(name.clone(), n)),
        root,
        proptest::option::weighted(0.5, prop_oneof![8 => select(vec!["min.js", "out/b.js"]).prop_map(String::from), 1 => dict::text()]),
        segcs(deep),
        proptest::bool::weighted(0.2),
    )
        .prop_flat_map(|(sources, names, root, file, segs, unsorted)| {
            let n = sources.len();
            (Just((sources, names, root, file, segs, unsorted)), contents(n))
        })
        .prop_map(|((sources, names, root, file, segs, unsorted), contents)| DocC {
            sources,
            names,
            root,
            file,
            contents,
            segs,
            unsorted,
        })
        .boxed()
}

pub fn docc(deep: bool) -> BoxedStrategy<DocC> {
    prop_oneof![
        1 => docc_with(deep, plain_source(), plain_root(), 0),
        12 => docc_with(deep, plain_source(), plain_root(), 1),
    ]
    .boxed()
}

pub fn sectcs(deep: bool, max: usize) -> BoxedStrategy<Vec<SectC>> {
    let dl = prop_oneof![8 => Just(0u32), 10 => 1u32..4, 4 => 1u32..40, 2 => 1u32..100_000, 1 => dict::number(100_000)];
    let dc = prop_oneof![8 => Just(0u32), 10 => 0u32..8, 4 => 0u32..80, 2 => 0u32..1_000_000, 1 => dict::number(1_000_000)];
    let doc = docc_with(false, plain_source(), plain_root(), 1);
    // Section maps with moderate positions: shifted ones must stay 32-bit.
    let doc = doc.prop_map(|mut d| {
        for s in &mut d.segs {
            s.gc = s.gc.min(1_000_000_000);
        }
        d
    });
    let one = (dl, dc, doc).prop_map(|(dl, dc, doc)| SectC { dl, dc, doc });
    let _ = deep;
    // The first section may begin far down.
    let first = prop_oneof![12 => Just(None), 1 => (20u32..30, 0u32..3, 20u32..30, 0u32..3).prop_map(|(a, b, c, d)| Some(((1 << a) + b, (1 << c) + d)))];
    let some = proptest::collection::vec(one, 1..=max);
    // No sections at all are sectioned too.
    (prop_oneof![60 => some, 1 => Just(vec![])], first)
        .prop_map(|(mut v, first)| {
            if let (Some((dl, dc)), false) = (first, v.is_empty()) {
                v[0].dl = dl;
                v[0].dc = dc;
            }
            v
        })
        .boxed()
}

// ------------------------------------------------------------------ requests

/// A query position: near a mapping (number `k` of those in question) or
/// anywhere.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum PosC {
    Near { k: u32, dl: i8, dc: i8 },
    At { line: u32, col: u32 },
}

pub fn posc() -> BoxedStrategy<PosC> {
    prop_oneof![
        8 => (any::<u32>(), prop_oneof![6 => Just(0i8), 1 => -2i8..=2], prop_oneof![3 => Just(0i8), 3 => -2i8..=2, 1 => -20i8..=20])
            .prop_map(|(k, dl, dc)| PosC::Near { k, dl, dc }),
        2 => (prop_oneof![3 => 0u32..5, 1 => coord()], coord()).prop_map(|(line, col)| PosC::At { line, col }),
    ]
    .boxed()
}

impl PosC {
    /// As (one-based line, zero-based column) within the API's domain.
    pub fn resolve(&self, near: &[(u32, u32)]) -> (i32, i32) {
        let (l, c) = match self {
            PosC::At { line, col } => (*line as i64, *col as i64),
            PosC::Near { k, dl, dc } => {
                if near.is_empty() {
                    (k.to_owned() as i64 % 3, *dc as i64)
                } else {
                    let n = near[*k as usize % near.len()];
                    (n.0 as i64 + *dl as i64, n.1 as i64 + *dc as i64)
                }
            }
        };
        (
            (l.clamp(0, MAXP as i64) + 1) as i32,
            c.clamp(0, MAXP as i64 + 1) as i32,
        )
    }
}

/// How a request names a source.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrcC {
    /// The k-th reported (resolved) name.
    Listed(u32),
    /// The k-th entry as the document spells it.
    Spelled(u32),
    /// One of the last few reported names.
    Last(u32),
    Other(String),
}

impl SrcC {
    pub fn name(&self, listed: &[String], spelled: &[String]) -> String {
        match self {
            SrcC::Other(o) => o.clone(),
            SrcC::Listed(k) | SrcC::Spelled(k) | SrcC::Last(k) if listed.is_empty() => format!("none{}.js", k % 4),
            SrcC::Listed(k) => listed[*k as usize % listed.len()].clone(),
            SrcC::Last(k) => listed[listed.len() - 1 - *k as usize % listed.len().min(16)].clone(),
            SrcC::Spelled(k) => spelled[*k as usize % spelled.len()].clone(),
        }
    }
}

pub fn srcc() -> BoxedStrategy<SrcC> {
    prop_oneof![
        12 => any::<u32>().prop_map(SrcC::Listed),
        2 => any::<u32>().prop_map(SrcC::Last),
        2 => any::<u32>().prop_map(SrcC::Spelled),
        1 => select(vec!["nope.js", "one.js", "missing/x.js", "http://nowhere.example/q.js"])
            .prop_map(|s| SrcC::Other(s.to_string())),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum ReqC {
    Fwd { pos: PosC, lub: Option<bool> },
    Rev { src: SrcC, pos: PosC, lub: Option<bool> },
    All { src: SrcC, pos: PosC, col: bool },
    Each { original: bool },
    Content { src: SrcC, panic: Option<bool> },
    HasAll,
    Sources,
    Spans,
}

pub fn biasc() -> BoxedStrategy<Option<bool>> {
    prop_oneof![2 => Just(None), 2 => Just(Some(false)), 3 => Just(Some(true))].boxed()
}

pub fn fwdc() -> BoxedStrategy<ReqC> {
    (posc(), biasc()).prop_map(|(pos, lub)| ReqC::Fwd { pos, lub }).boxed()
}
pub fn revc() -> BoxedStrategy<ReqC> {
    (srcc(), posc(), biasc()).prop_map(|(src, pos, lub)| ReqC::Rev { src, pos, lub }).boxed()
}
pub fn allc() -> BoxedStrategy<ReqC> {
    (srcc(), posc(), proptest::bool::weighted(0.6)).prop_map(|(src, pos, col)| ReqC::All { src, pos, col }).boxed()
}
pub fn contentc() -> BoxedStrategy<ReqC> {
    (srcc(), proptest::option::of(any::<bool>())).prop_map(|(src, panic)| ReqC::Content { src, panic }).boxed()
}

/// Mostly requests of the kind a suite is about, between others.
pub fn among(req: BoxedStrategy<ReqC>) -> BoxedStrategy<ReqC> {
    prop_oneof![4 => req, 1 => reqc()].boxed()
}

pub fn reqc() -> BoxedStrategy<ReqC> {
    prop_oneof![
        4 => fwdc(),
        4 => revc(),
        3 => allc(),
        2 => any::<bool>().prop_map(|original| ReqC::Each { original }),
        2 => contentc(),
        1 => Just(ReqC::HasAll),
        1 => Just(ReqC::Sources),
        2 => Just(ReqC::Spans),
    ]
    .boxed()
}

impl ReqC {
    /// Makes a concrete request for a plain document.
    pub fn for_doc(&self, d: &Doc) -> Req {
        let name = |s: &SrcC| s.name(&d.resolved, &d.sources);
        let near_gen: Vec<(u32, u32)> = d.segs.iter().map(|s| (s.gl, s.gc)).collect();
        let near_orig = |s: &str| -> Vec<(u32, u32)> {
            let of = d.find(s).map(|i| d.of_source(i)).unwrap_or_default();
            of.iter().filter_map(|s| s.orig.as_ref()).map(|o| (o.line, o.col)).collect()
        };
        self.make(name, &near_gen, near_orig)
    }

    /// Makes a concrete request for a sectioned document.
    pub fn for_index(&self, x: &Index) -> Req {
        let (listed, spelled) = x.names();
        let name = |s: &SrcC| s.name(&listed, &spelled);
        let mut near_gen: Vec<(u32, u32)> = vec![];
        for s in &x.sects {
            near_gen.push((s.line, s.col));
            for g in &s.doc.segs {
                let (l, c) = s.out(g.gl, g.gc);
                near_gen.push((l as u32, c as u32));
            }
        }
        let near_orig = |s: &str| -> Vec<(u32, u32)> {
            let of = x.find(s).map(|(i, j)| x.sects[i].doc.of_source(j)).unwrap_or_default();
            of.iter().filter_map(|s| s.orig.as_ref()).map(|o| (o.line, o.col)).collect()
        };
        self.make(name, &near_gen, near_orig)
    }

    fn make(
        &self,
        name: impl Fn(&SrcC) -> String,
        near_gen: &[(u32, u32)],
        near_orig: impl Fn(&str) -> Vec<(u32, u32)>,
    ) -> Req {
        match self {
            ReqC::Fwd { pos, lub } => {
                let (line, col) = pos.resolve(near_gen);
                Req::Fwd { line, col, lub: *lub }
            }
            ReqC::Rev { src, pos, lub } => {
                let src = name(src);
                let (line, col) = pos.resolve(&near_orig(&src));
                Req::Rev { src, line, col, lub: *lub }
            }
            ReqC::All { src, pos, col: with } => {
                let src = name(src);
                let (line, col) = pos.resolve(&near_orig(&src));
                Req::All { src, line, col: if *with { Some(col) } else { None } }
            }
            ReqC::Each { original } => Req::Each { original: *original },
            ReqC::Content { src, panic } => Req::Content { src: name(src), panic: *panic },
            ReqC::HasAll => Req::HasAll,
            ReqC::Sources => Req::Sources,
            ReqC::Spans => Req::Spans,
        }
    }
}
