//! Source-map documents, the requests a consumer answers, and the reference
//! answers computed from the document by linear scans.

use crate::runner::call;
use crate::urlmodel;
use crate::vlq::{encode_mappings, Orig, Seg};
use rusty_source_map::consumer::{BasicConsumer, Consumer, ConsumerTrait, IndexedConsumer, IterOrd};
use rusty_source_map::source_map::Position;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use source_map_mappings::Bias;
use std::cell::RefCell;

// ------------------------------------------------------------------ generated documents

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OrigC {
    pub src: u32,
    pub line: u32,
    pub col: u32,
    pub name: Option<u32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SegC {
    pub gl: u32,
    pub gc: u32,
    pub orig: Option<OrigC>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DocC {
    pub sources: Vec<String>,
    pub names: Vec<String>,
    pub root: Option<String>,
    pub file: Option<String>,
    pub contents: Option<Vec<Option<String>>>,
    pub segs: Vec<SegC>,
    /// Keep the columns of a line in the order given instead of ascending.
    pub unsorted: bool,
}

/// A document with everything derived from it by the reference model.
#[derive(Clone, Debug)]
pub struct Doc {
    pub sources: Vec<String>,
    pub resolved: Vec<String>,
    pub names: Vec<String>,
    pub root: Option<String>,
    pub map_url: Option<String>,
    pub contents: Option<Vec<Option<String>>>,
    /// In text order.
    pub text_segs: Vec<Seg>,
    /// Sorted by generated position (ties in text order).
    pub segs: Vec<Seg>,
    pub json: Value,
}

pub fn build(c: &DocC, map_url: Option<&str>) -> Doc {
    let mut segs: Vec<Seg> = c
        .segs
        .iter()
        .map(|s| Seg {
            gl: s.gl,
            gc: s.gc,
            orig: s.orig.as_ref().filter(|_| !c.sources.is_empty()).map(|o| Orig {
                src: o.src % c.sources.len() as u32,
                line: o.line,
                col: o.col,
                name: o.name.filter(|_| !c.names.is_empty()).map(|n| n % c.names.len() as u32),
            }),
        })
        .collect();
    if c.unsorted {
        segs.sort_by_key(|s| s.gl);
    } else {
        segs.sort_by_key(|s| (s.gl, s.gc));
    }
    build_from(c, map_url, segs)
}

pub fn build_from(c: &DocC, map_url: Option<&str>, text_segs: Vec<Seg>) -> Doc {
    let mut segs = text_segs.clone();
    segs.sort_by_key(|s| (s.gl, s.gc));
    let resolved = c
        .sources
        .iter()
        .map(|s| urlmodel::compute_source_url(c.root.as_deref(), s, map_url))
        .collect();
    let mut m = Map::new();
    m.insert("version".into(), json!(3));
    if let Some(f) = &c.file {
        m.insert("file".into(), json!(f));
    }
    if let Some(r) = &c.root {
        m.insert("sourceRoot".into(), json!(r));
    }
    m.insert("sources".into(), json!(c.sources));
    if let Some(k) = &c.contents {
        m.insert("sourcesContent".into(), json!(k));
    }
    // The member may be left out.
    if !(c.names.is_empty() && text_segs.len() % 2 == 1) {
        m.insert("names".into(), json!(c.names));
    }
    m.insert("mappings".into(), json!(encode_mappings(&text_segs)));
    Doc {
        sources: c.sources.clone(),
        resolved,
        names: c.names.clone(),
        root: c.root.clone(),
        map_url: map_url.map(|s| s.to_string()),
        contents: c.contents.clone(),
        text_segs,
        segs,
        json: Value::Object(m),
    }
}

impl Doc {
    pub fn text(&self) -> String {
        self.json.to_string()
    }

    /// The entry a spelling denotes.
    pub fn find(&self, spelling: &str) -> Option<u32> {
        let m = self.map_url.as_deref();
        let a = urlmodel::compute_source_url(None, spelling, m);
        if let Some(i) = self.resolved.iter().position(|r| *r == a) {
            return Some(i as u32);
        }
        let b = urlmodel::compute_source_url(self.root.as_deref(), spelling, m);
        self.resolved.iter().position(|r| *r == b).map(|i| i as u32)
    }

    pub fn content(&self, i: u32) -> Option<String> {
        self.contents.as_ref()?.get(i as usize)?.clone()
    }

    /// All mappings at the position the forward lookup must answer from;
    /// arguments zero-based.
    pub fn fwd(&self, line: i64, col: i64, lub: bool) -> Vec<&Seg> {
        let on: Vec<&Seg> = self.segs.iter().filter(|s| s.gl as i64 == line).collect();
        let best = if let Some(s) = on.iter().find(|s| s.gc as i64 == col) {
            Some(s.gc)
        } else if lub {
            on.iter().map(|s| s.gc).filter(|c| *c as i64 > col).min()
        } else {
            on.iter().map(|s| s.gc).filter(|c| (*c as i64) < col).max()
        };
        match best {
            None => vec![],
            Some(b) => on.into_iter().filter(|s| s.gc == b).collect(),
        }
    }

    pub fn of_source(&self, src: u32) -> Vec<&Seg> {
        self.segs.iter().filter(|s| s.orig.as_ref().map_or(false, |o| o.src == src)).collect()
    }

    /// All mappings of the source at the original position the reverse lookup
    /// must answer from; arguments zero-based.
    pub fn rev(&self, src: u32, line: i64, col: i64, lub: bool) -> Vec<&Seg> {
        let on = self.of_source(src);
        let key = |s: &&Seg| s.orig.as_ref().map(|o| (o.line as i64, o.col as i64)).unwrap_or((0, 0));
        let best = if lub {
            on.iter().map(key).filter(|k| *k >= (line, col)).min()
        } else {
            on.iter().map(key).filter(|k| *k <= (line, col)).max()
        };
        match best {
            None => vec![],
            Some(b) => on.into_iter().filter(|s| key(s) == b).collect(),
        }
    }

    /// The matching mappings of an all-positions lookup; line zero-based.
    pub fn all(&self, src: u32, line: i64, col: Option<i64>) -> Vec<&Seg> {
        let on = self.of_source(src);
        let o = |s: &&Seg| s.orig.as_ref().map(|o| (o.line as i64, o.col as i64)).unwrap_or((0, 0));
        match col {
            Some(c) => {
                let best = on.iter().map(o).filter(|k| k.0 == line && k.1 >= c).map(|k| k.1).min();
                on.into_iter().filter(|s| Some(o(s).1) == best && o(s).0 == line).collect()
            }
            None => {
                let best = on.iter().map(o).map(|k| k.0).filter(|l| *l >= line).min();
                on.into_iter().filter(|s| Some(o(s).0) == best).collect()
            }
        }
    }

    /// The span ends a mapping may have: the column of the mapping following
    /// it on its line. Mappings tied on one position follow each other in an
    /// unspecified order, so each of them may have their own column.
    pub fn spans(&self, s: &Seg) -> Vec<Option<u32>> {
        let next = self
            .segs
            .iter()
            .filter(|t| t.gl == s.gl && t.gc > s.gc)
            .map(|t| t.gc)
            .min();
        let tied = self.segs.iter().filter(|t| t.gl == s.gl && t.gc == s.gc).count();
        if tied > 1 {
            vec![next, Some(s.gc)]
        } else {
            vec![next]
        }
    }

    pub fn has_all(&self) -> bool {
        match &self.contents {
            None => false,
            Some(k) => k.len() >= self.sources.len() && (0..self.sources.len()).all(|i| k[i].is_some()),
        }
    }
}

// ------------------------------------------------------------------ sectioned documents

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SectC {
    /// Lines after the previous section's offset line (0: same line).
    pub dl: u32,
    /// Column, or columns after the previous offset (+1) on the same line.
    pub dc: u32,
    pub doc: DocC,
}

#[derive(Clone, Debug)]
pub struct Sect {
    pub line: u32,
    pub col: u32,
    pub doc: Doc,
}

#[derive(Clone, Debug)]
pub struct Index {
    pub sects: Vec<Sect>,
    pub json: Value,
}

pub fn build_index(cs: &[SectC], map_url: Option<&str>) -> Index {
    let mut sects: Vec<Sect> = vec![];
    for c in cs {
        let (line, col) = match sects.last() {
            None => (c.dl, c.dc),
            Some(p) if c.dl == 0 => (p.line, p.col + 1 + c.dc),
            Some(p) => (p.line + c.dl, c.dc),
        };
        sects.push(Sect { line, col, doc: build(&c.doc, map_url) });
    }
    let json = index_json(&sects);
    Index { sects, json }
}

pub fn index_json(sects: &[Sect]) -> Value {
    json!({
        "version": 3,
        "sections": sects.iter().map(|s| json!({
            "offset": {"line": s.line, "column": s.col}, "map": s.doc.json
        })).collect::<Vec<_>>()
    })
}

impl Index {
    pub fn text(&self) -> String {
        self.json.to_string()
    }
    /// The names of all entries, resolved and as spelled.
    pub fn names(&self) -> (Vec<String>, Vec<String>) {
        (
            self.sects.iter().flat_map(|s| s.doc.resolved.clone()).collect(),
            self.sects.iter().flat_map(|s| s.doc.sources.clone()).collect(),
        )
    }
    /// The section containing a zero-based position.
    pub fn at(&self, line: i64, col: i64) -> Option<usize> {
        self.sects.iter().rposition(|s| (s.line as i64, s.col as i64) <= (line, col))
    }
    pub fn find(&self, spelling: &str) -> Option<(usize, u32)> {
        self.sects
            .iter()
            .enumerate()
            .find_map(|(i, s)| s.doc.find(spelling).map(|j| (i, j)))
    }
}

impl Sect {
    /// A position of this section's own map in whole-file coordinates.
    pub fn out(&self, gl: u32, gc: u32) -> (i64, i64) {
        (
            self.line as i64 + gl as i64,
            gc as i64 + if gl == 0 { self.col as i64 } else { 0 },
        )
    }
}

// ------------------------------------------------------------------ requests

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Req {
    /// Line one-based, column zero-based, as in the API. Bias: None = default.
    Fwd { line: i32, col: i32, lub: Option<bool> },
    Rev { src: String, line: i32, col: i32, lub: Option<bool> },
    All { src: String, line: i32, col: Option<i32> },
    Each { original: bool },
    Content { src: String, panic: Option<bool> },
    HasAll,
    Sources,
    Spans,
}

/// What a lookup reports (positions as reported: lines one-based).
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct Found {
    pub source: Option<String>,
    pub name: Option<String>,
    pub orig: Option<(i32, i32)>,
    pub gen: (i32, i32),
    pub last: Option<i32>,
}

/// A raw record (zero-based) of enumeration or all-positions lookup.
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord, Hash)]
pub struct Rec {
    pub gl: u32,
    pub gc: u32,
    pub orig: Option<Orig>,
    pub last: Option<u32>,
}

impl Rec {
    pub fn seg(&self) -> Seg {
        Seg { gl: self.gl, gc: self.gc, orig: self.orig.clone() }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ans {
    Found(Option<Found>),
    GenPos(Option<(i32, i32)>),
    Recs(Vec<Rec>),
    Text(Option<String>),
    Bool(bool),
    List(Vec<String>),
    Unit,
    Panic(String),
}

impl Ans {
    /// The answer without span ends; any two refusals are alike.
    pub fn no_spans(&self) -> Ans {
        match self {
            Ans::Found(Some(f)) => Ans::Found(Some(Found { last: None, ..f.clone() })),
            Ans::Recs(r) => Ans::Recs(r.iter().map(|r| Rec { last: None, ..r.clone() }).collect()),
            Ans::Panic(_) => Ans::Panic(String::new()),
            o => o.clone(),
        }
    }
    pub fn delivers_mapping(&self) -> bool {
        match self {
            Ans::Found(f) => f.is_some(),
            Ans::GenPos(f) => f.is_some(),
            Ans::Recs(r) => !r.is_empty(),
            _ => false,
        }
    }
}

pub fn bias(b: Option<bool>) -> Option<Bias> {
    b.map(|l| if l { Bias::LeastUpperBound } else { Bias::GreatestLowerBound })
}

pub fn rec(m: &source_map_mappings::Mapping) -> Rec {
    Rec {
        gl: m.generated_line,
        gc: m.generated_column,
        last: m.last_generated_column,
        orig: m.original.as_ref().map(|o| Orig {
            src: o.source,
            line: o.original_line,
            col: o.original_column,
            name: o.name,
        }),
    }
}

pub fn found(m: rusty_source_map::mapping::Mapping) -> Found {
    Found {
        source: m.source,
        name: m.name,
        orig: m.original.map(|p| (p.line, p.column)),
        gen: (m.generated.line, m.generated.column),
        last: m.last_generated_column,
    }
}

fn pos(line: i32, col: i32) -> Position {
    Position { line, column: col }
}

pub fn ask_basic(c: &mut BasicConsumer, r: &Req) -> Ans {
    let out = call(|| match r {
        Req::Fwd { line, col, lub } => {
            Ans::Found(c.original_position_for(pos(*line, *col), bias(*lub)).map(found))
        }
        Req::Rev { src, line, col, lub } => {
            Ans::Found(c.generated_position_for(src, *line, *col, bias(*lub)).map(found))
        }
        Req::All { src, line, col } => {
            Ans::Recs(c.all_generated_position_for(src, *line, *col).iter().map(rec).collect())
        }
        Req::Each { original } => {
            let v = RefCell::new(vec![]);
            c.each_mapping(
                |m| v.borrow_mut().push(rec(m)),
                if *original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd },
            );
            Ans::Recs(v.into_inner())
        }
        Req::Content { src, panic } => Ans::Text(c.source_content_for(src, *panic)),
        Req::HasAll => Ans::Bool(c.has_contents_of_all_sources()),
        Req::Sources => Ans::List(c.get_sources()),
        Req::Spans => {
            c.compute_column_spans();
            Ans::Unit
        }
    });
    out.unwrap_or_else(Ans::Panic)
}

pub fn ask_indexed(c: &mut IndexedConsumer, r: &Req) -> Ans {
    let out = call(|| match r {
        Req::Fwd { line, col, lub } => {
            Ans::Found(c.original_position_for(pos(*line, *col), bias(*lub)).map(found))
        }
        Req::Rev { src, line, col, lub } => Ans::GenPos(
            c.generated_position_for(src, *line, *col, bias(*lub)).map(|p| (p.line, p.column)),
        ),
        Req::All { src, line, col } => {
            Ans::Recs(c.all_generated_position_for(src, *line, *col).iter().map(rec).collect())
        }
        Req::Each { original } => {
            let v = RefCell::new(vec![]);
            c.each_mapping(
                |m| v.borrow_mut().push(rec(m)),
                if *original { IterOrd::OriginalOrd } else { IterOrd::GeneratedOrd },
            );
            Ans::Recs(v.into_inner())
        }
        Req::Content { src, panic } => Ans::Text(c.source_content_for(src, *panic)),
        Req::HasAll => Ans::Bool(c.has_contents_of_all_sources()),
        Req::Sources => Ans::List(c.get_sources()),
        Req::Spans => {
            c.computed_column_spans();
            Ans::Unit
        }
    });
    out.unwrap_or_else(Ans::Panic)
}

pub fn ask(c: &mut Consumer, r: &Req) -> Ans {
    match c {
        Consumer::BasicConsumer(b) => ask_basic(b, r),
        Consumer::IndexedConsumer(i) => ask_indexed(i, r),
    }
}

// ------------------------------------------------------------------ expected answers

/// What a lookup must report for a mapping of the document, span end aside.
pub fn expect_found(d: &Doc, s: &Seg) -> Option<Found> {
    let o = s.orig.as_ref()?;
    Some(Found {
        source: d.resolved.get(o.src as usize).cloned(),
        name: o.name.map(|n| d.names[n as usize].clone()),
        orig: Some((o.line as i32 + 1, o.col as i32)),
        gen: (s.gl as i32 + 1, s.gc as i32),
        last: None,
    })
}

/// Checks a forward answer (of a plain map) against the candidates.
pub fn check_fwd(d: &Doc, line: i32, col: i32, lub: bool, a: &Ans) -> Result<(), String> {
    let c = d.fwd(line as i64 - 1, col as i64, lub);
    let Ans::Found(got) = a.no_spans() else {
        return Err(format!("forward lookup of {}:{} answered {:?}", line, col, a));
    };
    if c.is_empty() {
        return match got {
            None => Ok(()),
            Some(g) => Err(format!("forward lookup of {}:{} (lub {}) found {:?}, but there is no mapping on that side of the line", line, col, lub, g)),
        };
    }
    if c.iter().any(|s| expect_found(d, s) == got) {
        Ok(())
    } else {
        Err(format!(
            "forward lookup of {}:{} (lub {}) found {:?}, expected one of {:?}",
            line, col, lub, got, c.iter().map(|s| expect_found(d, s)).collect::<Vec<_>>()
        ))
    }
}

pub fn check_rev(d: &Doc, src: &str, line: i32, col: i32, lub: bool, a: &Ans) -> Result<(), String> {
    let Ans::Found(got) = a.no_spans() else {
        return Err(format!("reverse lookup of {} {}:{} answered {:?}", src, line, col, a));
    };
    let c = match d.find(src) {
        None => vec![],
        Some(i) => d.rev(i, line as i64 - 1, col as i64, lub),
    };
    let ok = if c.is_empty() { got.is_none() } else { c.iter().any(|s| expect_found(d, s) == got) };
    if ok {
        Ok(())
    } else {
        Err(format!(
            "reverse lookup of {:?} {}:{} (lub {}) found {:?}, expected one of {:?}",
            src, line, col, lub, got, c.iter().map(|s| expect_found(d, s)).collect::<Vec<_>>()
        ))
    }
}

pub fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

pub fn check_all(d: &Doc, src: &str, line: i32, col: Option<i32>, a: &Ans) -> Result<(), String> {
    let Ans::Recs(got) = a else {
        return Err(format!("all-positions lookup of {} {}:{:?} answered {:?}", src, line, col, a));
    };
    let c: Vec<Seg> = match d.find(src) {
        None => vec![],
        Some(i) => d.all(i, line as i64 - 1, col.map(|c| c as i64)).into_iter().cloned().collect(),
    };
    let g: Vec<Seg> = got.iter().map(|r| r.seg()).collect();
    if sorted(&g) == sorted(&c) {
        Ok(())
    } else {
        Err(format!(
            "all-positions lookup of {:?} {}:{:?} found {:?}, expected {:?}",
            src, line, col, g, c
        ))
    }
}
