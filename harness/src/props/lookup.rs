//! C08-C14, C17, C26: plain maps.

use crate::ensure;
use crate::gens::{self, *};
use crate::large::{self, LargeC};
use crate::model::*;
use crate::runner::*;
use crate::vlq::Seg;
use proptest::prelude::*;
use rusty_source_map::consumer::{create_consumer, BasicConsumer, Consumer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub doc: DocC,
    pub map_url: Option<String>,
    pub reqs: Vec<ReqC>,
}

pub fn open(text: &str, url: Option<&str>) -> Result<BasicConsumer, String> {
    // By each of the ways; which one must make no difference (C32).
    let opened = match text.len() % 3 {
        0 => call(|| Ok(BasicConsumer::new(text, url))),
        1 => call(|| {
            serde_json::from_str(text)
                .map(|j| BasicConsumer::from_source_map_json(j, url))
                .map_err(|e| e.to_string())
        }),
        _ => call(|| match create_consumer(text, url) {
            Ok(Consumer::BasicConsumer(b)) => Ok(b),
            Ok(_) => Err("is opened as a sectioned map".to_string()),
            Err(e) => Err(e.to_string()),
        }),
    };
    opened
        .map_err(|e| format!("opening {} (map URL {:?}) panics: {}", text, url, e))?
        .map_err(|e| format!("opening {} (map URL {:?}): {}", text, url, e))
}

fn case_of(deep: bool, req: BoxedStrategy<ReqC>, n: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (docc(deep), plain_map_url(), proptest::collection::vec(req, n))
        .prop_map(|(doc, map_url, reqs)| Case { doc, map_url, reqs })
        .boxed()
}

/// A large document, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeCase {
    large: LargeC,
    map_url: Option<String>,
    reqs: Vec<ReqC>,
}

impl LargeCase {
    fn case(&self) -> Case {
        Case { doc: self.large.doc(), map_url: self.map_url.clone(), reqs: self.reqs.clone() }
    }
}

fn large_of(cap: u32, req: BoxedStrategy<ReqC>, n: std::ops::Range<usize>) -> BoxedStrategy<LargeCase> {
    (large::largec(cap), plain_map_url(), proptest::collection::vec(req, n))
        .prop_map(|(large, map_url, reqs)| LargeCase { large, map_url, reqs })
        .boxed()
}

fn start(c: &Case) -> Result<(Doc, BasicConsumer), String> {
    let d = build(&c.doc, c.map_url.as_deref());
    let b = open(&d.text(), c.map_url.as_deref())?;
    Ok((d, b))
}

fn err_in(d: &Doc, e: String) -> String {
    format!("{} [document {} map URL {:?}]", e, d.json, d.map_url)
}

// ------------------------------------------------------------------ C08

fn c08(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    for q in &c.reqs {
        let r = q.for_doc(&d);
        let a = ask_basic(&mut b, &r);
        let Req::Fwd { line, col, lub } = r else { continue };
        let lub_ = lub.unwrap_or(false);
        check_fwd(&d, line, col, lub_, &a).map_err(|e| err_in(&d, e))?;
        let cand = d.fwd(line as i64 - 1, col as i64, lub_);
        match cand.first() {
            None => {
                let any = d.segs.iter().any(|s| s.gl as i64 == line as i64 - 1);
                o.class(if any { "nothing on that side" } else { "nothing on the line" });
                o.nontrivial_if(any);
            }
            Some(s) => {
                o.class(if s.gc as i32 == col { "exact" } else if lub_ { "nearest after" } else { "nearest before" });
                o.class_if(cand.len() > 1, "tied");
                o.class_if(s.orig.is_none(), "without original");
                o.nontrivial_if(s.gc as i32 != col || cand.len() > 1 || s.orig.is_none());
            }
        }
    }
    o.class_if(c.doc.unsorted, "unsorted text");
    Ok(())
}

// ------------------------------------------------------------------ C09

fn c09(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    for q in &c.reqs {
        let r = q.for_doc(&d);
        let a = ask_basic(&mut b, &r);
        let Req::Rev { src, line, col, lub } = &r else { continue };
        let lub_ = lub.unwrap_or(false);
        check_rev(&d, src, *line, *col, lub_, &a).map_err(|e| err_in(&d, e))?;
        match d.find(src) {
            None => o.class("unknown source"),
            Some(i) => {
                let k = d.rev(i, *line as i64 - 1, *col as i64, lub_);
                let others = d.segs.iter().any(|s| s.orig.as_ref().map_or(false, |x| x.src != i));
                match k.first().and_then(|s| s.orig.as_ref()) {
                    None => {
                        o.class("nothing on that side");
                        o.nontrivial_if(others);
                    }
                    Some(x) => {
                        let exact = x.line as i64 == *line as i64 - 1 && x.col as i64 == *col as i64;
                        o.class(if exact { "exact" } else if x.line as i64 == *line as i64 - 1 { "nearest, same line" } else { "nearest, other line" });
                        o.class_if(k.len() > 1, "tied");
                        o.class_if(x.name.is_some(), "named");
                        o.nontrivial_if(!exact || k.len() > 1 || others);
                    }
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10

fn c10(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    for q in &c.reqs {
        let r = q.for_doc(&d);
        let a = ask_basic(&mut b, &r);
        let Req::All { src, line, col } = &r else { continue };
        check_all(&d, src, *line, *col, &a).map_err(|e| err_in(&d, e))?;
        match d.find(src) {
            None => o.class("unknown source"),
            Some(i) => {
                let k = d.all(i, *line as i64 - 1, col.map(|c| c as i64));
                o.class(if col.is_some() { "with column" } else { "without column" });
                o.class_if(k.is_empty(), "empty");
                o.class_if(k.len() > 1, "several");
                let fuzzy = k.first().and_then(|s| s.orig.as_ref()).map_or(false, |x| match col {
                    Some(c) => x.col as i32 != *c,
                    None => x.line as i64 != *line as i64 - 1,
                });
                o.class_if(fuzzy, "nearest");
                o.nontrivial_if(k.len() > 1 || fuzzy || (k.is_empty() && !d.of_source(i).is_empty()));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C11

fn segs_of(a: &Ans) -> Result<Vec<Seg>, String> {
    match a {
        Ans::Recs(r) => Ok(r.iter().map(|r| r.seg()).collect()),
        o => Err(format!("enumeration answered {:?}", o)),
    }
}

pub fn check_enumeration(segs: &[Seg], original: bool, got: &[Seg]) -> Result<(), String> {
    let want: Vec<Seg> = segs.iter().filter(|s| !original || s.orig.is_some()).cloned().collect();
    ensure!(
        sorted(got) == sorted(&want),
        "enumeration (original order: {}) visits {:?}, the document has {:?}", original, got, want
    );
    let key = |s: &Seg| -> (u32, u32, u32) {
        if original {
            s.orig.as_ref().map(|o| (o.src, o.line, o.col)).unwrap_or((0, 0, 0))
        } else {
            (s.gl, s.gc, 0)
        }
    };
    for w in got.windows(2) {
        ensure!(key(&w[0]) <= key(&w[1]), "enumeration (original order: {}) visits {:?} before {:?}", original, w[0], w[1]);
    }
    Ok(())
}

fn c11(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    // The orders asked for, in turn, on one consumer.
    for q in &c.reqs {
        let r = q.for_doc(&d);
        let a = ask_basic(&mut b, &r);
        let Req::Each { original } = r else { continue };
        check_enumeration(&d.segs, original, &segs_of(&a)?).map_err(|e| err_in(&d, e))?;
        o.class(if original { "original order" } else { "generated order" });
    }
    let mixed = d.segs.iter().any(|s| s.orig.is_none()) && d.segs.iter().any(|s| s.orig.is_some());
    o.class_if(mixed, "with and without original");
    o.class_if(c.doc.unsorted, "unsorted text");
    let srcs: std::collections::BTreeSet<u32> = d.segs.iter().filter_map(|s| s.orig.as_ref().map(|o| o.src)).collect();
    o.class_if(srcs.len() > 1, "several sources");
    o.nontrivial_if(d.segs.len() >= 3 && (mixed || srcs.len() > 1 || c.doc.unsorted));
    Ok(())
}

// ------------------------------------------------------------------ C12

fn each(b: &mut BasicConsumer, original: bool) -> Result<Vec<Rec>, String> {
    match ask_basic(b, &Req::Each { original }) {
        Ans::Recs(r) => Ok(r),
        a => Err(format!("enumeration answered {:?}", a)),
    }
}

fn check_spans(d: &Doc, b: &mut BasicConsumer) -> Result<(), String> {
    let g = each(b, false)?;
    for (i, r) in g.iter().enumerate() {
        let want = g.get(i + 1).filter(|n| n.gl == r.gl).map(|n| n.gc);
        ensure!(r.last == want, "after computing spans, {:?} should end at {:?} (enumeration {:?})", r, want, g);
    }
    check_enumeration(&d.segs, false, &g.iter().map(|r| r.seg()).collect::<Vec<_>>())?;
    let o = each(b, true)?;
    let want: Vec<Rec> = g.iter().filter(|r| r.orig.is_some()).cloned().collect();
    ensure!(sorted(&o) == sorted(&want), "original-order enumeration has spans {:?}, generated-order {:?}", o, want);
    check_enumeration(&d.segs, true, &o.iter().map(|r| r.seg()).collect::<Vec<_>>())
}

/// A span end as a lookup reports it.
fn span_ok(d: &Doc, c: &[&Seg], f: &Found, unbounded: Option<i32>) -> bool {
    c.iter().any(|s| {
        expect_found(d, s) == Some(Found { last: None, ..f.clone() })
            && d.spans(s).iter().any(|e| f.last == e.map(|x| x as i32).or(unbounded))
    })
}

fn c12(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    let ctx = |e: String| err_in(&d, e);
    let mut computed = false;
    let mut after = 0;
    for q in &c.reqs {
        let r = q.for_doc(&d);
        let a = ask_basic(&mut b, &r);
        match &r {
            Req::Spans => {
                ensure!(a == Ans::Unit, "{}", ctx(format!("computing spans answered {:?}", a)));
                computed = true;
                check_spans(&d, &mut b).map_err(ctx)?;
            }
            Req::Each { .. } if computed => check_spans(&d, &mut b).map_err(ctx)?,
            Req::Each { original } => check_enumeration(&d.segs, *original, &segs_of(&a)?).map_err(ctx)?,
            Req::Fwd { line, col, lub } => {
                check_fwd(&d, *line, *col, lub.unwrap_or(false), &a).map_err(ctx)?;
                if let (true, Ans::Found(Some(f))) = (computed, &a) {
                    after += 1;
                    let k = d.fwd(*line as i64 - 1, *col as i64, lub.unwrap_or(false));
                    ensure!(span_ok(&d, &k, f, None), "{}", ctx(format!("forward lookup {:?} reports the span of {:?}", r, f)));
                    o.class(if f.last.is_some() { "forward, bounded" } else { "forward, unbounded" });
                }
            }
            Req::Rev { src, line, col, lub } => {
                check_rev(&d, src, *line, *col, lub.unwrap_or(false), &a).map_err(ctx)?;
                if let (true, Ans::Found(Some(f)), Some(i)) = (computed, &a, d.find(src)) {
                    after += 1;
                    let k = d.rev(i, *line as i64 - 1, *col as i64, lub.unwrap_or(false));
                    ensure!(span_ok(&d, &k, f, Some(-1)), "{}", ctx(format!("reverse lookup {:?} reports the span of {:?}", r, f)));
                    o.class(if f.last != Some(-1) { "reverse, bounded" } else { "reverse, unbounded" });
                }
            }
            Req::All { src, line, col } => {
                check_all(&d, src, *line, *col, &a).map_err(ctx)?;
                if let (true, Ans::Recs(v)) = (computed, &a) {
                    for x in v {
                        ensure!(d.spans(&x.seg()).contains(&x.last), "{}", ctx(format!("all-positions lookup {:?} reports the span of {:?}", r, x)));
                        after += 1;
                    }
                }
            }
            _ => {}
        }
    }
    let mut per_line: BTreeMap<u32, usize> = BTreeMap::new();
    for s in &d.segs {
        *per_line.entry(s.gl).or_insert(0) += 1;
    }
    o.nontrivial_if(computed && after > 0 && per_line.values().any(|n| *n >= 2));
    Ok(())
}

// ------------------------------------------------------------------ C13

fn c13(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    let text = d.text();
    let before = serde_json::to_string(&b.source_map).map_err(|e| e.to_string())?;
    let mut lookups = 0;
    for (i, q) in c.reqs.iter().enumerate() {
        let r = q.for_doc(&d);
        let mut fresh = open(&text, c.map_url.as_deref())?;
        let (x, y) = (ask_basic(&mut b, &r).no_spans(), ask_basic(&mut fresh, &r).no_spans());
        ensure!(x == y, "request {} ({:?}) is answered {:?} after {:?}, but {:?} by a fresh consumer {}", i, r, x, c.reqs[..i].iter().map(|q| q.for_doc(&d)).collect::<Vec<_>>(), y, err_in(&d, String::new()));
        let now = serde_json::to_string(&b.source_map).map_err(|e| e.to_string())?;
        ensure!(now == before, "request {:?} changed the exposed document from {} to {}", r, before, now);
        if matches!(r, Req::Fwd { .. } | Req::Rev { .. } | Req::All { .. }) && x.delivers_mapping() {
            lookups += 1;
        }
        o.class_if(matches!(x, Ans::Panic(_)), "refused");
    }
    o.class_if(c.reqs.iter().any(|r| matches!(r, ReqC::Spans)), "spans");
    o.nontrivial_if(c.reqs.len() >= 3 && lookups >= 2);
    Ok(())
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shift {
    case: Case,
    n: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeShift {
    case: LargeCase,
    n: u32,
}

fn c14(c: &Shift, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(&c.case)?;
    let ctx = |e: String| err_in(&d, e);
    for s in d.segs.iter().step_by(d.segs.len() / 40 + 1) {
        let Some(x) = &s.orig else { continue };
        let name = &d.resolved[x.src as usize];
        let (ol, oc) = (x.line as i32 + 1, x.col as i32);
        // Reverse all: contains the generated position (for the entry the name denotes).
        if d.find(name) == Some(x.src) {
            let Ans::Recs(v) = ask_basic(&mut b, &Req::All { src: name.clone(), line: ol, col: Some(oc) }) else {
                return Err(ctx(format!("all-positions lookup of {:?} panics", s)));
            };
            ensure!(v.iter().any(|r| (r.gl, r.gc) == (s.gl, s.gc)), "{}", ctx(format!("all-positions lookup of the original position of {:?} misses it: {:?}", s, v)));
            ensure!(v.iter().all(|r| r.orig.as_ref().map_or(false, |y| (y.src, y.line, y.col) == (x.src, x.line, x.col))), "{}", ctx(format!("all-positions lookup of {:?} returns {:?}", s, v)));
        }
        // Forward: the original position of a mapping there.
        let f = ask_basic(&mut b, &Req::Fwd { line: s.gl as i32 + 1, col: s.gc as i32, lub: None });
        let Ans::Found(f) = f else { return Err(ctx(format!("forward lookup of {:?} answered {:?}", s, f))) };
        let there: Vec<&Seg> = d.segs.iter().filter(|t| (t.gl, t.gc) == (s.gl, s.gc)).collect();
        ensure!(there.iter().any(|t| expect_found(&d, t) == f.clone().map(|f| Found { last: None, ..f })), "{}", ctx(format!("forward lookup of {:?} finds {:?}", s, f)));
        // And back from the answer: inside the same original position.
        if let Some(Found { source: Some(src), orig: Some((l, k)), .. }) = f {
            let back = ask_basic(&mut b, &Req::Rev { src: src.clone(), line: l, col: k, lub: None });
            // The name may denote an earlier entry of the same resolved name.
            let denoted = d.find(&src).map_or(false, |i| d.of_source(i).iter().any(|t| t.orig.as_ref().map_or(false, |y| (y.line as i32 + 1, y.col as i32) == (l, k))));
            if denoted {
                match &back {
                    Ans::Found(Some(g)) if g.orig == Some((l, k)) && g.source.as_deref() == Some(&src) => {}
                    other => return Err(ctx(format!("mapping back from {} {}:{} finds {:?}", src, l, k, other))),
                }
            }
        }
    }

    // The same map, n lines further down.
    let moved: Vec<Seg> = d.text_segs.iter().map(|s| Seg { gl: s.gl + c.n, ..s.clone() }).collect();
    let e = build_from(&c.case.doc, c.case.map_url.as_deref(), moved);
    let mut m = open(&e.text(), c.case.map_url.as_deref())?;
    let n = c.n as i32;
    for q in &c.case.reqs {
        let r = q.for_doc(&d);
        let (x, y) = match &r {
            Req::Fwd { line, col, lub } => {
                if *line > i32::MAX - n {
                    continue;
                }
                (ask_basic(&mut b, &r), ask_basic(&mut m, &Req::Fwd { line: line + n, col: *col, lub: *lub }))
            }
            _ => (ask_basic(&mut b, &r), ask_basic(&mut m, &r)),
        };
        let up = match y.no_spans() {
            Ans::Found(Some(f)) => Ans::Found(Some(Found { gen: (f.gen.0 - n, f.gen.1), ..f })),
            Ans::Recs(v) => {
                ensure!(v.iter().all(|r| r.gl >= c.n), "{}", ctx(format!("{} empty lines in front, but {:?} reports {:?}", n, r, v)));
                Ans::Recs(v.into_iter().map(|r| Rec { gl: r.gl - c.n, ..r }).collect())
            }
            a => a,
        };
        let x = x.no_spans();
        let same = match (&x, &up) {
            // Ties may be answered by any of the tied mappings.
            (Ans::Found(Some(_)), Ans::Found(Some(_))) => {
                x == up || tied(&d, &r)
            }
            (Ans::Found(_), Ans::Found(_)) => x == up || tied(&d, &r),
            (Ans::Recs(a), Ans::Recs(b)) => sorted(a) == sorted(b),
            _ => x == up,
        };
        ensure!(same, "{}", ctx(format!("{:?} is answered {:?}, but {:?} (moved up again) with {} empty lines in front", r, x, up, n)));
    }
    // Nothing above the moved map.
    for l in [1, n / 2, n] {
        if l >= 1 && l <= n {
            let a = ask_basic(&mut m, &Req::Fwd { line: l, col: 0, lub: Some(true) });
            ensure!(a == Ans::Found(None), "{}", ctx(format!("line {} of {} empty ones answers {:?}", l, n, a)));
        }
    }
    o.class_if(c.n > 0, "shifted");
    o.nontrivial_if(c.n > 0 && d.segs.iter().filter(|s| s.orig.is_some()).count() >= 2);
    Ok(())
}

fn tied(d: &Doc, r: &Req) -> bool {
    match r {
        Req::Fwd { line, col, lub } => d.fwd(*line as i64 - 1, *col as i64, lub.unwrap_or(false)).len() > 1,
        Req::Rev { src, line, col, lub } => d.find(src).map_or(false, |i| d.rev(i, *line as i64 - 1, *col as i64, lub.unwrap_or(false)).len() > 1),
        _ => false,
    }
}

// ------------------------------------------------------------------ C17

fn c17(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (d, mut b) = start(c)?;
    let ctx = |e: String| err_in(&d, e);
    let a = ask_basic(&mut b, &Req::HasAll);
    ensure!(a == Ans::Bool(d.has_all()), "{}", ctx(format!("has-all-contents answers {:?}", a)));
    for q in &c.reqs {
        let r = q.for_doc(&d);
        let a = ask_basic(&mut b, &r);
        let Req::Content { src, panic } = &r else { continue };
        let want = match d.find(src) {
            _ if d.contents.is_none() => Some(None),
            Some(i) => Some(d.content(i)),
            None if panic.unwrap_or(true) => None,
            None => Some(None),
        };
        match (&want, &a) {
            (Some(w), Ans::Text(t)) if w == t => {}
            (None, Ans::Panic(_)) => {}
            _ => return Err(ctx(format!("content request {:?} answered {:?}, expected {}", r, a, match want { None => "a panic".into(), Some(w) => format!("{:?}", w) }))),
        }
        o.class(match (&d.contents, d.find(src), &want) {
            (None, _, _) => "no contents",
            (_, None, None) => "unknown, panics",
            (_, None, _) => "unknown, told not to panic",
            (_, _, Some(Some(_))) => "content",
            _ => "null or missing entry",
        });
        o.nontrivial_if(d.contents.is_some() && (d.find(src) != Some(0)));
    }
    let a = ask_basic(&mut b, &Req::HasAll);
    ensure!(a == Ans::Bool(d.has_all()), "{}", ctx(format!("has-all-contents answers {:?} after requests", a)));
    Ok(())
}

// ------------------------------------------------------------------ C26

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Extreme {
    doc: DocC,
    map_url: Option<String>,
    spans: bool,
    qs: Vec<(u8, SrcC, i32, i32, Option<bool>, bool)>,
}

fn c26(c: &Extreme, o: &mut Obs) -> Result<(), String> {
    let d = build(&c.doc, c.map_url.as_deref());
    let ctx = |e: String| err_in(&d, e);
    let mut b = open(&d.text(), c.map_url.as_deref())?;
    if c.spans {
        let a = ask_basic(&mut b, &Req::Spans);
        ensure!(a == Ans::Unit, "{}", ctx(format!("computing spans answered {:?}", a)));
    }
    for (kind, src, line, col, lub, with) in &c.qs {
        let src = src.name(&d.resolved, &d.sources);
        let r = match kind % 3 {
            0 => Req::Fwd { line: *line, col: *col, lub: *lub },
            1 => Req::Rev { src: src.clone(), line: *line, col: *col, lub: *lub },
            _ => Req::All { src: src.clone(), line: *line, col: if *with { Some(*col) } else { None } },
        };
        let a = ask_basic(&mut b, &r);
        let bad_col = *col < 0 && (kind % 3 != 2 || *with);
        let bad = *line < 1 || bad_col;
        let known = kind % 3 == 0 || d.find(&src).is_some();
        match (known, bad) {
            (true, true) => {
                ensure!(matches!(a, Ans::Panic(_)), "{}", ctx(format!("the out-of-range request {:?} is answered {:?}", r, a)));
                o.class("refused");
                o.nontrivial();
            }
            (true, false) => {
                match &r {
                    Req::Fwd { line, col, lub } => check_fwd(&d, *line, *col, lub.unwrap_or(false), &a).map_err(ctx)?,
                    Req::Rev { src, line, col, lub } => check_rev(&d, src, *line, *col, lub.unwrap_or(false), &a).map_err(ctx)?,
                    Req::All { src, line, col } => check_all(&d, src, *line, *col, &a).map_err(ctx)?,
                    _ => {}
                }
                o.class("answered");
                o.class_if(*line > 1_000_000 || *col > 1_000_000, "far out");
                o.nontrivial_if(*line > 1_000_000 || *col > 1_000_000);
            }
            (false, bad) => {
                // An unknown source: nothing, and in range certainly no crash.
                let empty = matches!(&a, Ans::Found(None)) || matches!(&a, Ans::Recs(v) if v.is_empty()) || (bad && matches!(a, Ans::Panic(_)));
                ensure!(empty, "{}", ctx(format!("request {:?} of an unknown source is answered {:?}", r, a)));
                o.class("unknown source");
            }
        }
    }
    Ok(())
}

fn extreme(deep: bool) -> BoxedStrategy<Extreme> {
    let v = || {
        prop_oneof![
            3 => -2i32..4,
            2 => (0i32..3).prop_map(|d| i32::MAX - d),
            2 => (0i32..3).prop_map(|d| i32::MIN + d),
            1 => any::<i32>(),
            1 => gens::coord().prop_map(|c| c as i32),
        ]
    };
    let q = (any::<u8>(), srcc(), v(), v(), biasc(), any::<bool>());
    (docc(deep), plain_map_url(), any::<bool>(), proptest::collection::vec(q, 1..8))
        .prop_map(|(doc, map_url, spans, qs)| Extreme { doc, map_url, spans, qs })
        .boxed()
}

const LARGE: &str = "documents of up to 3000 (where lookups are linear, now and then about 2^15 or 2^16) sources, names and mappings, expanded from a few numbers; non-trivial as above";
const BIG: u32 = 70_000;

pub fn properties() -> Vec<Property> {
    let a: &'static [&'static str] = &[
        "well-formed maps: source and name numbers inside their tables, one-based positions within i32",
        "mappings tied on the queried position may be answered by any of them",
    ];
    vec![
        Property { id: "C08", assumptions: a, suites: vec![
            suite("forward", "documents of 0-250 mappings (thorough 600) and 1-10 positions near and far, all biases, some other requests between; non-trivial: the answer is not an untied exact hit with an original position (nearest, tied, sourceless, or nothing on that side of a line with mappings)",
                40_000, 1_000_000, |d| case_of(d, among(fwdc()), 1..10), c08),
            suite("large", LARGE, 400, 8_000, |_| large_of(BIG, among(fwdc()), 8..24), |c, o| c08(&c.case(), o))] },
        Property { id: "C09", assumptions: a, suites: vec![
            suite("reverse", "documents and 1-10 original positions, all biases; non-trivial: answer not exact, tied, or other sources have mappings",
                40_000, 1_000_000, |d| case_of(d, among(revc()), 1..10), c09),
            suite("large", LARGE, 400, 8_000, |_| large_of(BIG, among(revc()), 8..24), |c, o| c09(&c.case(), o))] },
        Property { id: "C10", assumptions: a, suites: vec![
            suite("all", "documents and 1-10 original lines with and without column; non-trivial: several answers, a nearest answer, or none though the source has mappings",
                40_000, 1_000_000, |d| case_of(d, among(allc()), 1..10), c10),
            suite("large", LARGE, 400, 8_000, |_| large_of(BIG, among(allc()), 8..24), |c, o| c10(&c.case(), o))] },
        Property { id: "C11", assumptions: a, suites: vec![
            suite("enumerate", "documents enumerated 1-4 times in either order; non-trivial: 3+ mappings that are of several sources, partly sourceless, or unsorted within a line of the text",
                40_000, 1_000_000, |d| case_of(d, among(any::<bool>().prop_map(|original| ReqC::Each { original }).boxed()), 1..5), c11),
            suite("large", LARGE, 300, 6_000, |_| large_of(BIG, any::<bool>().prop_map(|original| ReqC::Each { original }).boxed(), 1..3), |c, o| c11(&c.case(), o))] },
        Property { id: "C12", assumptions: a, suites: vec![
            suite("spans", "request histories with span computations; non-trivial: an answer with a span after computing, on a map with two mappings on a line",
                80_000, 1_000_000, |d| case_of(d, prop_oneof![3 => Just(ReqC::Spans), 3 => fwdc(), 3 => revc(), 2 => allc(), 1 => any::<bool>().prop_map(|original| ReqC::Each { original })].boxed(), 1..10), c12),
            suite("large", LARGE, 600, 6_000, |_| large_of(3000, prop_oneof![1 => Just(ReqC::Spans), 6 => fwdc(), 6 => revc(), 4 => allc()].boxed(), 8..20), |c, o| c12(&c.case(), o))] },
        Property { id: "C13", assumptions: &["span ends are excluded, as stated"], suites: vec![
            suite("basic", "histories of 2-12 requests of all kinds on one plain consumer; non-trivial: 3+ requests, two of them lookups that find something",
                30_000, 700_000, |d| case_of(d, reqc(), 2..12), c13),
            suite("long", "documents of up to 300 sources, names and mappings and histories of 50-300 requests of all kinds on one plain consumer; non-trivial as above",
                60, 1_500, |_| large_of(300, reqc(), 50..300), |c, o| c13(&c.case(), o)),
            suite("indexed", "histories of 2-12 requests of all kinds on one sectioned consumer; non-trivial: 2+ sections and two lookups that find something",
                5_000, 150_000, crate::props::sections::history, crate::props::sections::c13),
            suite("indexed-long", "histories of 40-160 requests on one consumer of up to 30 sections; non-trivial as above",
                30, 800, |_| crate::props::sections::long_history(), crate::props::sections::c13_long)] },
        Property { id: "C14", assumptions: a, suites: vec![
            suite("metamorphic", "documents, each mapping looked up both ways, and the same document with 0-50 empty lines in front; non-trivial: shifted, two mappings with original",
                60_000, 700_000, |d| (case_of(d, among(prop_oneof![fwdc(), revc(), allc(), any::<bool>().prop_map(|original| ReqC::Each { original })].boxed()), 1..8), prop_oneof![1 => Just(0u32), 6 => 1u32..6, 2 => 1u32..50])
                    .prop_map(|(case, n)| Shift { case, n }).boxed(), c14),
            suite("large", LARGE, 400, 4_000, |_| (large_of(3000, prop_oneof![fwdc(), revc(), allc()].boxed(), 4..16), prop_oneof![3 => 1u32..6, 2 => 50u32..400, 1 => 30_000u32..70_000])
                    .prop_map(|(case, n)| LargeShift { case, n }).boxed(), |c, o| c14(&Shift { case: c.case.case(), n: c.n }, o))] },
        Property { id: "C17", assumptions: &["entries of a contents list beyond the sources are not null"], suites: vec![
            suite("contents", "documents with full, partial, short, empty or no contents and 1-8 content requests; non-trivial: a request for another than the first source in a document with contents",
                40_000, 1_000_000, |d| case_of(d, among(contentc()), 1..8), c17),
            suite("large", LARGE, 300, 6_000, |_| large_of(BIG, among(contentc()), 4..12), |c, o| c17(&c.case(), o))] },
        Property { id: "C26", assumptions: &["well-formed maps"], suites: vec![
            suite("extremes", "documents (empty ones too) and 1-8 requests with lines and columns over all of i32; non-trivial: a refusal, or an answer at a position beyond a million",
                80_000, 1_000_000, extreme, c26),
            suite("indexed", "sectioned documents and requests with lines and columns over all of i32; non-trivial: a refusal, or an answer at a position beyond a million",
                8_000, 100_000, crate::props::sections::extreme, crate::props::sections::c26)] },
    ]
}
