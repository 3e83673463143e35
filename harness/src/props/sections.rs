//! C19-C23 and the sectioned halves of C13 and C26.

use crate::dict;
use crate::ensure;
use crate::gens::{self, *};
use crate::large::{self, SectsC};
use crate::model::*;
use crate::runner::*;
use crate::vlq::Seg;
use proptest::prelude::*;
use proptest::sample::select;
use rusty_source_map::consumer::{create_consumer, BasicConsumer, Consumer, IndexedConsumer};
use rusty_source_map::source_map::SourceMapJson;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    sects: Vec<SectC>,
    map_url: Option<String>,
    spans: bool,
    reqs: Vec<ReqC>,
}

fn case_of(deep: bool, req: BoxedStrategy<ReqC>, n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    let max = if deep { 9 } else { 6 };
    (sectcs(deep, max), plain_map_url(), any::<bool>(), proptest::collection::vec(req, n))
        .prop_map(|(sects, map_url, spans, reqs)| Case { sects, map_url, spans, reqs })
        .boxed()
}

/// Many sections, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeCase {
    large: SectsC,
    map_url: Option<String>,
    spans: bool,
    reqs: Vec<ReqC>,
}

impl LargeCase {
    fn case(&self) -> Case {
        Case { sects: self.large.sects(), map_url: self.map_url.clone(), spans: self.spans, reqs: self.reqs.clone() }
    }
}

fn large_of(cap: u32, req: BoxedStrategy<ReqC>, n: std::ops::Range<usize>) -> BoxedStrategy<LargeCase> {
    (large::sectsc(cap), plain_map_url(), any::<bool>(), proptest::collection::vec(req, n))
        .prop_map(|(large, map_url, spans, reqs)| LargeCase { large, map_url, spans, reqs })
        .boxed()
}

pub fn long_history() -> BoxedStrategy<LargeCase> {
    large_of(30, reqc(), 40..160)
}

pub fn c13_long(c: &LargeCase, o: &mut Obs) -> Result<(), String> {
    c13(&c.case(), o)
}

pub fn open(text: &str, url: Option<&str>) -> Result<IndexedConsumer, String> {
    // By each of the ways; which one must make no difference (C32).
    let opened = match text.len() % 3 {
        0 => call(|| Ok(IndexedConsumer::new(text, url))),
        1 => call(|| {
            serde_json::from_str(text)
                .map(|j| IndexedConsumer::from_source_map_json(j, url))
                .map_err(|e| e.to_string())
        }),
        _ => call(|| match create_consumer(text, url) {
            Ok(Consumer::IndexedConsumer(b)) => Ok(b),
            Ok(_) => Err("is opened as a plain map".to_string()),
            Err(e) => Err(e.to_string()),
        }),
    };
    opened
        .map_err(|e| format!("opening {} (map URL {:?}) panics: {}", text, url, e))?
        .map_err(|e| format!("opening {} (map URL {:?}): {}", text, url, e))
}

fn start(c: &Case) -> Result<(Index, IndexedConsumer), String> {
    let x = build_index(&c.sects, c.map_url.as_deref());
    let mut b = open(&x.text(), c.map_url.as_deref())?;
    if c.spans {
        let a = ask_indexed(&mut b, &Req::Spans);
        ensure!(a == Ans::Unit, "computing spans of {} answered {:?}", x.json, a);
    }
    Ok((x, b))
}

fn err_in(x: &Index, e: String) -> String {
    format!("{} [document {}]", e, x.json)
}

// ------------------------------------------------------------------ C19

/// The answers allowed for a forward lookup; empty means nothing is found.
fn fwd_expected(x: &Index, line: i32, col: i32, lub: bool) -> Vec<Option<Found>> {
    let (l, c) = (line as i64 - 1, col as i64);
    let Some(i) = x.at(l, c) else { return vec![] };
    let s = &x.sects[i];
    let rl = l - s.line as i64;
    let rc = if rl == 0 { c - s.col as i64 } else { c };
    s.doc
        .fwd(rl, rc, lub)
        .into_iter()
        .map(|m| {
            expect_found(&s.doc, m).map(|f| {
                let (gl, gc) = s.out(m.gl, m.gc);
                Found { gen: (gl as i32 + 1, gc as i32), ..f }
            })
        })
        .collect()
}

pub fn check_index_fwd(x: &Index, line: i32, col: i32, lub: bool, a: &Ans, spans: bool) -> Result<(), String> {
    let Ans::Found(got) = a else { return Err(format!("forward lookup of {}:{} answered {:?}", line, col, a)) };
    let want = fwd_expected(x, line, col, lub);
    let bare = got.clone().map(|f| Found { last: None, ..f });
    let ok = if want.is_empty() { got.is_none() } else { want.contains(&bare) };
    ensure!(ok, "forward lookup of {}:{} (lub {}) found {:?}, expected one of {:?}", line, col, lub, got, want);
    if let (true, Some(f)) = (spans, got) {
        // The section's own span end, translated like the position.
        let i = x.at(line as i64 - 1, col as i64).unwrap_or(0);
        let s = &x.sects[i];
        let mut ends = vec![];
        for m in s.doc.fwd(line as i64 - 1 - s.line as i64, if line as i64 - 1 == s.line as i64 { col as i64 - s.col as i64 } else { col as i64 }, lub) {
            for e in s.doc.spans(m) {
                ends.push(e.map(|e| s.out(m.gl, e).1 as i32));
            }
        }
        // An unbounded last span may be cut where the next section begins.
        let cut = x.sects.get(i + 1).filter(|n| n.line as i64 == f.gen.0 as i64 - 1).map(|n| n.col as i32);
        let ok = ends.contains(&f.last) || (ends.contains(&None) && f.last.is_some() && f.last == cut);
        ensure!(ok, "forward lookup of {}:{} reports the span of {:?}, expected an end of {:?}", line, col, f, ends);
    }
    Ok(())
}

fn c19(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (x, mut b) = start(c)?;
    let mut spans = c.spans;
    for q in &c.reqs {
        let r = q.for_index(&x);
        let a = ask_indexed(&mut b, &r);
        spans |= r == Req::Spans;
        let Req::Fwd { line, col, lub } = r else { continue };
        check_index_fwd(&x, line, col, lub.unwrap_or(false), &a, spans).map_err(|e| err_in(&x, e))?;
        match x.at(line as i64 - 1, col as i64) {
            None => o.class("before the first section"),
            Some(i) => {
                let s = &x.sects[i];
                let first = s.line as i64 == line as i64 - 1;
                o.class_if(first && s.col as i64 == col as i64, "at a section start");
                o.class_if(first && s.col > 0 && col as u32 > s.col, "on a section's first line, shifted column");
                o.class_if(i > 0, "in a later section");
                o.class_if(a.delivers_mapping(), "found");
                o.nontrivial_if(a.delivers_mapping() && (i > 0 || s.line > 0 || (first && s.col > 0)));
            }
        }
    }
    let lines: BTreeSet<u32> = x.sects.iter().map(|s| s.line).collect();
    o.class_if(lines.len() < x.sects.len(), "two sections on a line");
    Ok(())
}

// ------------------------------------------------------------------ C20

fn c20(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (x, mut b) = start(c)?;
    let mut spans = c.spans;
    for q in &c.reqs {
        let r = q.for_index(&x);
        let a = ask_indexed(&mut b, &r);
        spans |= r == Req::Spans;
        check_index_reverse(&x, &r, &a, spans).map_err(|e| err_in(&x, e))?;
        let (Req::Rev { src, .. } | Req::All { src, .. }) = &r else { continue };
        match x.find(src) {
            None => o.class("unknown source"),
            Some((i, _)) => {
                let s = &x.sects[i];
                let lists = x.sects.iter().filter(|t| t.doc.find(src).is_some()).count();
                o.class_if(i > 0, "in a later section");
                o.class_if(lists > 1, "listed by several sections");
                let later = a.delivers_mapping() && (i > 0 || s.line > 0 || s.col > 0);
                o.class_if(later && s.col > 0, "found, shifted column");
                o.nontrivial_if(later);
            }
        }
    }
    Ok(())
}

pub fn check_index_reverse(x: &Index, r: &Req, a: &Ans, spans: bool) -> Result<(), String> {
    match r {
        Req::Rev { src, line, col, lub } => {
            let Ans::GenPos(got) = a else { return Err(format!("{:?} answered {:?}", r, a)) };
            let want: Vec<(i32, i32)> = match x.find(src) {
                None => vec![],
                Some((i, j)) => x.sects[i]
                    .doc
                    .rev(j, *line as i64 - 1, *col as i64, lub.unwrap_or(false))
                    .iter()
                    .map(|m| x.sects[i].out(m.gl, m.gc))
                    .map(|(l, c)| (l as i32 + 1, c as i32))
                    .collect(),
            };
            let ok = match got {
                None => want.is_empty(),
                Some(g) => want.contains(g),
            };
            ensure!(ok, "{:?} found {:?}, expected one of {:?}", r, got, want);
        }
        Req::All { src, line, col } => {
            let Ans::Recs(got) = a else { return Err(format!("{:?} answered {:?}", r, a)) };
            let want: Vec<Seg> = match x.find(src) {
                None => vec![],
                Some((i, j)) => x.sects[i]
                    .doc
                    .all(j, *line as i64 - 1, col.map(|c| c as i64))
                    .iter()
                    .map(|m| {
                        let (l, c) = x.sects[i].out(m.gl, m.gc);
                        Seg { gl: l as u32, gc: c as u32, orig: m.orig.clone() }
                    })
                    .collect(),
            };
            let g: Vec<Seg> = got.iter().map(|r| r.seg()).collect();
            ensure!(sorted(&g) == sorted(&want), "{:?} found {:?}, expected {:?}", r, g, want);
            if let (true, Some((i, _))) = (spans, x.find(src)) {
                let s = &x.sects[i];
                for rec in got {
                    let mut ends = vec![];
                    for m in s.doc.segs.iter().filter(|m| m.orig == rec.orig) {
                        if s.out(m.gl, m.gc) == (rec.gl as i64, rec.gc as i64) {
                            for e in s.doc.spans(m) {
                                match e {
                                    Some(e) => ends.push(Some(s.out(m.gl, e).1 as u32)),
                                    None => {
                                        ends.push(None);
                                        ends.extend(x.sects.get(i + 1).filter(|n| n.line == rec.gl).map(|n| Some(n.col)));
                                    }
                                }
                            }
                        }
                    }
                    ensure!(ends.contains(&rec.last), "{:?} reports the span of {:?}, expected an end of {:?}", r, rec, ends);
                }
            }
        }
        _ => {}
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

fn c21(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (x, mut b) = start(c)?;
    let mut spans = c.spans;
    for q in &c.reqs {
        let r = q.for_index(&x);
        let a = ask_indexed(&mut b, &r);
        spans |= r == Req::Spans;
        let Req::Each { original } = r else { continue };
        let Ans::Recs(got) = a else { return Err(err_in(&x, format!("enumeration answered {:?}", a))) };
        let mut at = 0;
        for (i, s) in x.sects.iter().enumerate() {
            // What the section alone visits, in whole-file coordinates.
            let mut alone = call(|| BasicConsumer::new(&s.doc.text(), c.map_url.as_deref())).map_err(|e| err_in(&x, e))?;
            if spans {
                ask_basic(&mut alone, &Req::Spans);
            }
            let Ans::Recs(own) = ask_basic(&mut alone, &Req::Each { original }) else {
                return Err(err_in(&x, format!("enumerating section {} alone panics", i)));
            };
            check_enum_own(s, original, &own).map_err(|e| err_in(&x, e))?;
            let cut = x.sects.get(i + 1);
            for m in &own {
                let (gl, gc) = s.out(m.gl, m.gc);
                let want = Rec {
                    gl: gl as u32,
                    gc: gc as u32,
                    orig: m.orig.clone(),
                    last: match m.last {
                        Some(e) => Some(s.out(m.gl, e).1 as u32),
                        None if spans => cut.filter(|n| n.line as i64 == gl).map(|n| n.col),
                        None => None,
                    },
                };
                let Some(g) = got.get(at) else {
                    return Err(err_in(&x, format!("enumeration stops before {:?} of section {}", want, i)));
                };
                // Before spans are computed their presence is unspecified.
                let same = g.seg() == want.seg() && (!spans || g.last == want.last);
                ensure!(same, "{}", err_in(&x, format!("enumeration (original order: {}) visits {:?} where section {} has {:?}", original, g, i, want)));
                o.class_if(spans && m.last.is_none() && want.last.is_some(), "cut at the next section");
                at += 1;
            }
        }
        ensure!(at == got.len(), "{}", err_in(&x, format!("enumeration visits {} mappings, the sections have {}", got.len(), at)));
        o.class(if original { "original order" } else { "generated order" });
        o.nontrivial_if(x.sects.len() > 1 && x.sects[1..].iter().any(|s| !s.doc.segs.is_empty()));
    }
    o.class_if(spans, "spans computed");
    Ok(())
}

fn check_enum_own(s: &Sect, original: bool, own: &[Rec]) -> Result<(), String> {
    let v: Vec<Seg> = own.iter().map(|r| r.seg()).collect();
    crate::props::lookup::check_enumeration(&s.doc.segs, original, &v)
}

/// One section at offset zero: like the section opened on its own.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Single {
    doc: DocC,
    map_url: Option<String>,
    reqs: Vec<ReqC>,
}

fn c21_single(c: &Single, o: &mut Obs) -> Result<(), String> {
    let d = build(&c.doc, c.map_url.as_deref());
    let url = c.map_url.as_deref();
    let x = Index { json: index_json(&[Sect { line: 0, col: 0, doc: d.clone() }]), sects: vec![Sect { line: 0, col: 0, doc: d.clone() }] };
    let mut i = open(&x.text(), url)?;
    let mut b = call(|| BasicConsumer::new(&d.text(), url))?;
    let mut hits = 0;
    for q in &c.reqs {
        let mut r = q.for_doc(&d);
        if let Req::Content { panic, .. } = &mut r {
            // Whether a known source without content is refused differs by design.
            *panic = Some(false);
        }
        let (y, z) = (ask_indexed(&mut i, &r), ask_basic(&mut b, &r));
        let same = match (&y, &z) {
            (Ans::GenPos(p), Ans::Found(f)) => *p == f.as_ref().map(|f| f.gen),
            (Ans::Found(p), Ans::Found(f)) => p == f,
            (Ans::Panic(_), Ans::Panic(_)) => true,
            _ => y == z,
        };
        ensure!(same, "{}", err_in(&x, format!("{:?}: sectioned {:?}, on its own {:?}", r, y, z)));
        if z.delivers_mapping() {
            hits += 1;
        }
    }
    o.nontrivial_if(hits >= 2);
    Ok(())
}

// ------------------------------------------------------------------ C22

/// Many offsets, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ManyOffsets {
    n: u32,
    lines: u32,
    cols: u32,
    shape: u8,
    at: u16,
    url: bool,
    seed: u32,
}

impl ManyOffsets {
    fn offsets(&self) -> Offsets {
        let mut r = large::Rng(self.seed as u64);
        let offs = (0..self.n).map(|_| (r.below(self.lines), r.below(self.cols))).collect();
        Offsets { offs, shape: self.shape, at: self.at, url_at: self.url.then(|| self.at), version: 3 }
    }
}

fn many_offsets(_: bool) -> BoxedStrategy<ManyOffsets> {
    (
        prop_oneof![3 => 200u32..=600, 2 => 1000u32..=3000, 1 => 4000u32..=9000],
        prop_oneof![1 => 1u32..=3, 2 => 100u32..=60_000],
        prop_oneof![1 => 1u32..=3, 2 => 100u32..=60_000],
        prop_oneof![3 => Just(1u8), 2 => 2u8..=5],
        any::<u16>(),
        proptest::bool::weighted(0.1),
        any::<u32>(),
    )
        .prop_map(|(n, lines, cols, shape, at, url, seed)| ManyOffsets { n, lines, cols, shape, at, url, seed })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Offsets {
    offs: Vec<(u32, u32)>,
    /// 0 as generated, else sorted and then disturbed in one of several ways.
    shape: u8,
    at: u16,
    url_at: Option<u16>,
    version: i32,
}

fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    P.get_or_init(|| {
        [1usize, 2, 3, 8]
            .iter()
            .filter_map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().ok())
            .collect()
    })
}

const PART_URLS: [&str; 8] =
    ["http://h.example/part.map", "", "part.map", ".", "data:application/json,{}", " ", "null", "/s0.js"];

/// Each has one source, by which it is known again; the rest varies.
fn section_map(i: usize, at: u16) -> serde_json::Value {
    let mut m = json!({"version": 3, "sources": [format!("s{}.js", i)], "names": [], "mappings": "AAAA"});
    match (at as usize + i * 5) % 16 {
        0 => m["mappings"] = json!(""),
        1 => m["mappings"] = json!(";;;;"),
        2 => m["mappings"] = json!("A"),
        3 => m["mappings"] = json!("gggggBAAA;AACA"),
        4 => m["file"] = json!(""),
        5 => m["sourcesContent"] = json!([""]),
        6 => m["names"] = json!([""]),
        7 => m["sourceRoot"] = json!(""),
        8 => m["sourcesContent"] = json!([]),
        _ => {}
    }
    m
}

fn c22(c: &Offsets, o: &mut Obs) -> Result<(), String> {
    let mut offs: Vec<(u32, u32)> = c.offs.clone();
    if c.shape > 0 {
        offs.sort();
        if offs.len() > 1 {
            let i = c.at as usize % (offs.len() - 1);
            match c.shape {
                2 => offs.swap(i, i + 1),
                3 => {
                    // Same line, smaller column.
                    offs[i + 1] = offs[i];
                    if offs[i].1 > 0 {
                        offs[i + 1].1 -= 1;
                    }
                }
                4 => {
                    // Next line up, though the column grows.
                    let (l, k) = offs[i];
                    offs[i + 1] = (l.saturating_sub(1), k + 1);
                }
                5 => offs[i + 1] = offs[i],
                _ => {}
            }
        }
    }
    let n = offs.len();
    let with_url = c.url_at.map(|u| u as usize % n.max(1)).filter(|_| n > 0);
    let sections: Vec<_> = offs
        .iter()
        .enumerate()
        .map(|(i, (l, k))| {
            let mut s = json!({"offset": {"line": l, "column": k}, "map": section_map(i, c.at)});
            if with_url == Some(i) {
                s["url"] = json!(PART_URLS[(c.at / 7) as usize % PART_URLS.len()]);
            }
            s
        })
        .collect();
    let doc = json!({"version": c.version, "sections": sections}).to_string();
    let ordered = offs.windows(2).all(|w| w[0] <= w[1]);
    let accept = ordered && with_url.is_none() && c.version == 3;
    let want: Vec<String> = (0..n).map(|i| format!("s{}.js", i)).collect();

    let attempt = |kind: u8| -> Result<Option<Vec<String>>, String> {
        call(|| match kind {
            0 => match create_consumer(&doc, None) {
                Ok(Consumer::IndexedConsumer(i)) => Some(i.get_sources()),
                Ok(_) => Some(vec!["opened as a plain map".into()]),
                Err(_) => None,
            },
            1 => Some(IndexedConsumer::new(&doc, None).get_sources()),
            _ => serde_json::from_str::<SourceMapJson>(&doc)
                .ok()
                .map(|j| IndexedConsumer::from_source_map_json(j, None).get_sources()),
        })
    };
    let judge = |r: Result<Option<Vec<String>>, String>, how: &str| -> Result<(), String> {
        match (accept, r) {
            (true, Ok(Some(s))) => {
                ensure!(s == want, "opened ({}) with its sections in another order: {:?} ({})", how, s, doc);
                Ok(())
            }
            (false, Err(_)) | (false, Ok(None)) => Ok(()),
            (true, r) => Err(format!("refused ({}) although the offsets are in order: {:?} ({})", how, r.err(), doc)),
            (false, Ok(_)) => Err(format!("accepted ({}) although {}: {}", how, if !ordered { "offsets decrease" } else if c.version != 3 { "the version is unsupported" } else { "a section has a URL" }, doc)),
        }
    };
    for rep in 0..2u8 {
        for kind in 0..3u8 {
            judge(attempt(kind), &format!("way {}, attempt {}", kind, rep))?;
        }
    }
    for p in pools() {
        let r = p.install(|| attempt(c.at as u8 % 3));
        judge(r, &format!("pool of {}", p.current_num_threads()))?;
        o.extra += 0;
    }
    o.class(if accept { "accepted" } else { "refused" });
    o.class_if(!ordered, "offsets decrease");
    o.class_if(ordered && n > 1 && offs.windows(2).any(|w| w[0] == w[1]), "equal offsets");
    o.class_if(n > 16, "17+ sections");
    o.nontrivial_if(n >= 2);
    Ok(())
}

fn offsets(deep: bool) -> BoxedStrategy<Offsets> {
    let size = if deep {
        prop_oneof![1 => Just(0usize..=1), 6 => Just(2usize..=6), 4 => Just(4usize..=40), 1 => Just(100usize..=400)].boxed()
    } else {
        prop_oneof![1 => Just(0usize..=1), 6 => Just(2usize..=6), 4 => Just(4usize..=40), 1 => Just(60usize..=160)].boxed()
    };
    let far = || {
        (select(vec![0x7fffu32, 0x8000, 0xffff, 0x10000, 0xff_ffff, 0x100_0000, 0x3fff_ffff, 0x7fff_fff0]), 0u32..4).prop_map(|(a, b)| a + b)
    };
    let off = (
        prop_oneof![6 => 0u32..5, 3 => 0u32..100, 1 => 0u32..70_000, 1 => far(), 1 => dict::number(0x7fff_fff0)],
        prop_oneof![6 => 0u32..5, 2 => 0u32..300, 1 => 0u32..70_000, 1 => far(), 1 => dict::number(0x7fff_fff0)],
    );
    (
        size.prop_flat_map(move |r| proptest::collection::vec(off.clone(), r)),
        prop_oneof![1 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 2 => Just(3u8), 2 => Just(4u8), 1 => Just(5u8)],
        any::<u16>(),
        proptest::option::weighted(0.1, any::<u16>()),
        prop_oneof![12 => Just(3i32), 1 => select(vec![0, 1, 2, 4, -3, i32::MAX, 259, 65_539, -253, i32::MIN])],
    )
        .prop_map(|(offs, shape, at, url_at, version)| Offsets { offs, shape, at, url_at, version })
        .boxed()
}

// ------------------------------------------------------------------ C23

fn c23(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (x, mut b) = start(c)?;
    let ctx = |e: String| err_in(&x, e);
    let list: Vec<String> = x.sects.iter().flat_map(|s| s.doc.resolved.clone()).collect();
    let a = ask_indexed(&mut b, &Req::Sources);
    ensure!(a == Ans::List(list.clone()), "{}", ctx(format!("sources are {:?}, expected {:?}", a, list)));
    let all = x.sects.iter().all(|s| s.doc.has_all());
    let a = ask_indexed(&mut b, &Req::HasAll);
    ensure!(a == Ans::Bool(all), "{}", ctx(format!("has-all-contents is {:?}, expected {}", a, all)));
    for q in &c.reqs {
        let r = q.for_index(&x);
        let a = ask_indexed(&mut b, &r);
        let Req::Content { src, panic } = &r else { continue };
        let holder = x.sects.iter().position(|s| s.doc.find(src).map_or(false, |j| s.doc.content(j).is_some()));
        let want = holder.and_then(|i| x.sects[i].doc.find(src).and_then(|j| x.sects[i].doc.content(j)));
        let ok = match (&want, &a) {
            (Some(w), Ans::Text(Some(t))) => w == t,
            (None, Ans::Panic(_)) => panic.unwrap_or(true),
            (None, Ans::Text(None)) => !panic.unwrap_or(true),
            _ => false,
        };
        ensure!(ok, "{}", ctx(format!("content request {:?} answered {:?}, expected {:?}", r, a, want)));
        let lister = x.find(src).map(|p| p.0);
        o.class(match (holder, lister) {
            (Some(h), Some(l)) if h > l => "held by a later section than the first listing it",
            (Some(h), _) if h > 0 => "held by a later section",
            (Some(_), _) => "held by the first section",
            (None, Some(_)) => "listed without content",
            (None, None) => "unknown",
        });
        o.nontrivial_if(holder.map_or(false, |h| h > 0) || (holder.is_none() && lister.is_some()));
    }
    o.class_if(all, "all contents");
    let a = ask_indexed(&mut b, &Req::Sources);
    ensure!(a == Ans::List(list.clone()), "{}", ctx(format!("sources are {:?} after requests, expected {:?}", a, list)));
    Ok(())
}

// ------------------------------------------------------------------ C13, C26

pub fn history(deep: bool) -> BoxedStrategy<Case> {
    case_of(deep, reqc(), 2..12)
}

pub fn c13(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (x, mut b) = start(&Case { spans: false, ..c.clone() })?;
    let text = x.text();
    let before = serde_json::to_string(&b.source_map).map_err(|e| e.to_string())?;
    let mut lookups = 0;
    for (i, q) in c.reqs.iter().enumerate() {
        let r = q.for_index(&x);
        let mut fresh = open(&text, c.map_url.as_deref())?;
        let (p, f) = (ask_indexed(&mut b, &r).no_spans(), ask_indexed(&mut fresh, &r).no_spans());
        ensure!(p == f, "{}", err_in(&x, format!("request {} ({:?}) is answered {:?} after {:?}, but {:?} by a fresh consumer", i, r, p, c.reqs[..i].iter().map(|q| q.for_index(&x)).collect::<Vec<_>>(), f)));
        let now = serde_json::to_string(&b.source_map).map_err(|e| e.to_string())?;
        ensure!(now == before, "request {:?} changed the exposed document from {} to {}", r, before, now);
        if p.delivers_mapping() {
            lookups += 1;
        }
    }
    o.nontrivial_if(lookups >= 2 && x.sects.len() >= 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Extreme {
    sects: Vec<SectC>,
    map_url: Option<String>,
    qs: Vec<(u8, SrcC, i32, i32, Option<bool>, bool)>,
}

pub fn extreme(deep: bool) -> BoxedStrategy<Extreme> {
    let v = || {
        prop_oneof![
            3 => -2i32..4,
            2 => (0i32..3).prop_map(|d| i32::MAX - d),
            1 => (0i32..3).prop_map(|d| i32::MIN + d),
            1 => any::<i32>(),
            1 => gens::coord().prop_map(|c| c as i32),
        ]
    };
    let q = (any::<u8>(), srcc(), v(), v(), biasc(), any::<bool>());
    (sectcs(deep, 4), plain_map_url(), proptest::collection::vec(q, 1..8))
        .prop_map(|(sects, map_url, qs)| Extreme { sects, map_url, qs })
        .boxed()
}

pub fn c26(c: &Extreme, o: &mut Obs) -> Result<(), String> {
    let x = build_index(&c.sects, c.map_url.as_deref());
    let ctx = |e: String| err_in(&x, e);
    let mut b = open(&x.text(), c.map_url.as_deref())?;
    let (listed, spelled) = x.names();
    for (kind, src, line, col, lub, with) in &c.qs {
        let src = src.name(&listed, &spelled);
        let r = match kind % 3 {
            0 => Req::Fwd { line: *line, col: *col, lub: *lub },
            1 => Req::Rev { src: src.clone(), line: *line, col: *col, lub: *lub },
            _ => Req::All { src: src.clone(), line: *line, col: if *with { Some(*col) } else { None } },
        };
        let a = ask_indexed(&mut b, &r);
        let bad = *line < 1 || (*col < 0 && (kind % 3 != 2 || *with));
        let known = kind % 3 == 0 || x.find(&src).is_some();
        if !known {
            ensure!(!a.delivers_mapping() && (bad || !matches!(a, Ans::Panic(_))), "{}", ctx(format!("request {:?} of an unknown source is answered {:?}", r, a)));
            o.class("unknown source");
        } else if bad {
            // A forward position outside every section simply finds nothing.
            let ok = matches!(a, Ans::Panic(_)) || (kind % 3 == 0 && a == Ans::Found(None));
            ensure!(ok, "{}", ctx(format!("the out-of-range request {:?} is answered {:?}", r, a)));
            o.class("refused");
            o.nontrivial();
        } else {
            if let Req::Fwd { line, col, lub } = &r {
                check_index_fwd(&x, *line, *col, lub.unwrap_or(false), &a, false).map_err(ctx)?;
            }
            check_index_reverse(&x, &r, &a, false).map_err(ctx)?;
            o.class("answered");
            o.nontrivial_if(*line > 1_000_000 || *col > 1_000_000);
        }
    }
    Ok(())
}

const LARGE: &str = "up to 3000 small sections, one or up to hundreds on a line, sharing few or many source names, expanded from a few numbers; non-trivial as above";

pub fn properties() -> Vec<Property> {
    let a: &'static [&'static str] = &[
        "section offsets strictly increasing for lookups (which of two sections with equal offsets is meant is unspecified)",
        "sections are plain maps; positions stay within 32 bits after translation",
    ];
    vec![
        Property { id: "C19", assumptions: a, suites: vec![
            suite("forward", "1-6 sections (several per line too) and 1-10 positions near section starts, near mappings and far, all biases; non-trivial: found in a section that is not at 0:0",
                24_000, 400_000, |d| case_of(d, among(fwdc()), 1..10), c19),
            suite("large", LARGE, 240, 3_000, |_| large_of(3000, among(fwdc()), 8..24), |c, o| c19(&c.case(), o))] },
        Property { id: "C20", assumptions: a, suites: vec![
            suite("reverse", "1-6 sections sharing source names, 1-10 reverse and all-positions lookups; non-trivial: found in a section that is not at 0:0",
                12_000, 400_000, |d| case_of(d, among(prop_oneof![revc(), allc()].boxed()), 1..10), c20),
            suite("large", LARGE, 120, 3_000, |_| large_of(3000, among(prop_oneof![revc(), allc()].boxed()), 8..24), |c, o| c20(&c.case(), o))] },
        Property { id: "C21", assumptions: a, suites: vec![
            suite("enumerate", "1-6 sections enumerated 1-3 times, with and without spans; non-trivial: a later section has mappings",
                12_000, 400_000, |d| case_of(d, among(any::<bool>().prop_map(|original| ReqC::Each { original }).boxed()), 1..4), c21),
            suite("large", LARGE, 60, 1_500, |_| large_of(3000, any::<bool>().prop_map(|original| ReqC::Each { original }).boxed(), 1..3), |c, o| c21(&c.case(), o)),
            suite("single", "one section at offset zero against the section opened alone, 2-12 requests of all kinds; non-trivial: two of them deliver mappings",
                12_000, 400_000, |d| (docc(d), plain_map_url(), proptest::collection::vec(reqc(), 2..12)).prop_map(|(doc, map_url, reqs)| Single { doc, map_url, reqs }).boxed(), c21_single)] },
        Property { id: "C22", assumptions: &["schedules are those of rayon pools of 1, 2, 3 and 8 threads, ten openings per case"], suites: vec![
            suite("offsets", "0-160 offsets (thorough 400), sorted or disturbed at one place, with section URLs or versions now and then; non-trivial: two or more sections",
                16_000, 150_000, offsets, c22),
            suite("large", "200-9000 offsets expanded from a few numbers, sorted but for one place; non-trivial as above",
                120, 1_500, many_offsets, |c, o| c22(&c.offsets(), o))] },
        Property { id: "C23", assumptions: a, suites: vec![
            suite("contents", "1-6 sections sharing source names with full, partial or no contents, 1-8 content requests; non-trivial: held by a later section, or listed without content",
                12_000, 400_000, |d| case_of(d, among(contentc()), 1..8), c23),
            suite("large", LARGE, 120, 3_000, |_| large_of(3000, among(contentc()), 6..16), |c, o| c23(&c.case(), o))] },
    ]
}
