//! C33, C34: the parts together.

use crate::ensure;
use crate::gens::*;
use crate::large::{largec, sectsc, LargeC, SectsC};
use crate::model::*;
use crate::props::generator::{add, check_decoded, decode, doc_of, lists_sorted, maps, MapC, OrigM};
use crate::props::lookup::{check_enumeration, open as open_basic};
use crate::props::sections::{check_index_fwd, check_index_reverse, open as open_index};
use crate::runner::*;
use proptest::prelude::*;
use rusty_source_map::consumer::{BasicConsumer, IndexedConsumer};
use rusty_source_map::generator::SourceMapGenerator;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::Barrier;

// ------------------------------------------------------------------ C33

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Again {
    sects: Vec<SectC>,
    sectioned: bool,
    map_url: Option<String>,
    original: bool,
    probes: Vec<ReqC>,
}

/// A document made by a fresh generator of these mappings.
fn generate(maps: &[MapC]) -> Result<String, String> {
    lists_sorted(maps, &[])?;
    let mut g = SourceMapGenerator::new(None, None, false);
    for m in maps {
        add(&mut g, m)?;
    }
    doc_of(&mut g)
}

/// What enumeration visits, with sources and names written out.
fn visited(b: &mut BasicConsumer, original: bool, names: &[String]) -> Result<Vec<MapC>, String> {
    let Ans::List(sources) = ask_basic(b, &Req::Sources) else { return Err("asking for the sources panics".into()) };
    let Ans::Recs(recs) = ask_basic(b, &Req::Each { original }) else { return Err("enumerating panics".into()) };
    recs.iter()
        .map(|r| {
            let orig = match &r.orig {
                None => None,
                Some(x) => Some(OrigM {
                    src: sources.get(x.src as usize).cloned().ok_or_else(|| format!("{:?} is of no listed source of {:?}", r, sources))?,
                    line: x.line as i32 + 1,
                    col: x.col as i32,
                    name: match x.name {
                        None => None,
                        Some(n) => Some(names.get(n as usize).cloned().ok_or_else(|| format!("{:?} has no listed name of {:?}", r, names))?),
                    },
                }),
            };
            Ok(MapC { gl: r.gl as i32 + 1, gc: r.gc as i32, orig })
        })
        .collect()
}

fn names_of(text: &str) -> Result<Vec<String>, String> {
    let v: serde_json::Value = serde_json::from_str(text).map_err(|e| format!("{}: {}", e, text))?;
    Ok(v["names"].as_array().map(|a| a.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default())
}

fn at_position(b: &mut BasicConsumer, l: i32, c: i32) -> Result<Option<Found>, String> {
    match ask_basic(b, &Req::Fwd { line: l, col: c, lub: None }).no_spans() {
        Ans::Found(f) => Ok(f),
        a => Err(format!("looking up {}:{} answered {:?}", l, c, a)),
    }
}

fn as_found(m: &MapC) -> Option<Found> {
    m.orig.as_ref().map(|o| Found {
        source: Some(o.src.clone()),
        name: o.name.clone(),
        orig: Some((o.line, o.col)),
        gen: (m.gl, m.gc),
        last: None,
    })
}

fn c33(c: &Again, o: &mut Obs) -> Result<(), String> {
    if c.sectioned {
        return c33_flat(c, o);
    }
    let Some(first) = c.sects.first() else { return Ok(()) };
    let d = build(&first.doc, c.map_url.as_deref());
    let mut b = open_basic(&d.text(), c.map_url.as_deref())?;
    let ctx = |e: String| format!("{} [document {} map URL {:?}]", e, d.json, c.map_url);
    let seen = visited(&mut b, c.original, &d.names).map_err(ctx)?;
    let text = generate(&seen).map_err(ctx)?;
    let mut e = open_basic(&text, None).map_err(ctx)?;
    let names = names_of(&text)?;
    let back = visited(&mut e, false, &names).map_err(ctx)?;
    let (s, t): (BTreeSet<&MapC>, BTreeSet<&MapC>) = (seen.iter().collect(), back.iter().collect());
    ensure!(s == t, "{}", ctx(format!("made again from its enumeration, {} has {:?} instead of {:?}", text, t, s)));
    // The lookups agree wherever only one mapping can answer.
    for q in &c.probes {
        let r = q.for_doc(&d);
        match &r {
            Req::Fwd { line, col, lub } if !c.original => {
                let k = d.fwd(*line as i64 - 1, *col as i64, lub.unwrap_or(false));
                if k.iter().collect::<BTreeSet<_>>().len() == 1 {
                    let (x, y) = (ask_basic(&mut b, &r).no_spans(), ask_basic(&mut e, &r).no_spans());
                    ensure!(x == y, "{}", ctx(format!("{:?} is answered {:?}, but {:?} by the map made again from its enumeration, {}", r, x, y, text)));
                }
            }
            _ => {}
        }
    }
    // Making it again changes nothing more.
    let mut places: Vec<(i32, i32)> = seen.iter().map(|m| (m.gl, m.gc)).collect();
    places.sort();
    let tied = places.windows(2).any(|w| w[0] == w[1]);
    if !c.original && !tied {
        let twice = generate(&back).map_err(ctx)?;
        ensure!(twice == text, "{}", ctx(format!("made again twice, {} becomes {}", text, twice)));
    }
    o.class(if c.original { "plain, original order" } else { "plain, generated order" });
    o.class_if(tied, "tied");
    let srcs: BTreeSet<&String> = seen.iter().filter_map(|m| m.orig.as_ref()).map(|o| &o.src).collect();
    o.nontrivial_if(seen.len() >= 3 && srcs.len() >= 2);
    Ok(())
}

/// A sectioned map as one plain map, by its own answers.
fn c33_flat(c: &Again, o: &mut Obs) -> Result<(), String> {
    let url = c.map_url.as_deref();
    let x = build_index(&c.sects, url);
    let mut b = open_index(&x.text(), url)?;
    let ctx = |e: String| format!("{} [document {} map URL {:?}]", e, x.json, c.map_url);
    let Ans::Recs(recs) = ask_indexed(&mut b, &Req::Each { original: c.original }) else { return Err(ctx("enumerating panics".into())) };
    // Every empty line costs a character. A mapping reaching into the next
    // section's part of the file is not the one that is found there.
    let own = |r: &Rec| {
        let (l, k) = (r.gl as i64, r.gc as i64);
        x.at(l, k).map_or(false, |i| x.sects[i].doc.segs.iter().any(|m| x.sects[i].out(m.gl, m.gc) == (l, k)))
    };
    let recs: Vec<Rec> = recs.into_iter().filter(|r| r.gl < 200_000 && own(r)).collect();
    let mut flat: Vec<MapC> = vec![];
    for r in &recs {
        let (l, k) = (r.gl as i32 + 1, r.gc as i32);
        let Ans::Found(f) = ask_indexed(&mut b, &Req::Fwd { line: l, col: k, lub: None }).no_spans() else {
            return Err(ctx(format!("looking up the visited {:?} panics", r)));
        };
        if let Some(f) = &f {
            ensure!(f.gen == (l, k), "{}", ctx(format!("looking up the visited {:?} finds {:?}", r, f)));
        }
        flat.push(MapC {
            gl: l,
            gc: k,
            orig: match f {
                Some(Found { source: Some(src), orig: Some((line, col)), name, .. }) => Some(OrigM { src, line, col, name }),
                _ => None,
            },
        });
    }
    let text = generate(&flat).map_err(ctx)?;
    let mut e = open_basic(&text, None).map_err(ctx)?;
    for m in &flat {
        let f = at_position(&mut e, m.gl, m.gc).map_err(ctx)?;
        ensure!(f == as_found(m), "{}", ctx(format!("as one plain map, {} answers {:?} where the sectioned one answers {:?}", text, f, as_found(m))));
    }
    for m in flat.iter().filter(|m| m.orig.is_some()).step_by(flat.len() / 20 + 1) {
        let Some(g) = &m.orig else { continue };
        let a = ask_basic(&mut e, &Req::All { src: g.src.clone(), line: g.line, col: Some(g.col) });
        let Ans::Recs(v) = &a else { return Err(ctx(format!("as one plain map, looking {:?} up back answers {:?}", m, a))) };
        ensure!(v.iter().any(|r| (r.gl as i32 + 1, r.gc as i32) == (m.gl, m.gc)), "{}", ctx(format!("as one plain map, looking {:?} up back finds {:?}", m, v)));
    }
    o.class("sectioned");
    let lines: BTreeSet<u32> = x.sects.iter().map(|s| s.line).collect();
    o.class_if(lines.len() < x.sects.len(), "two sections on a line");
    o.nontrivial_if(flat.iter().filter(|m| m.orig.is_some()).count() >= 2 && x.sects.len() >= 2);
    Ok(())
}

fn again(deep: bool) -> BoxedStrategy<Again> {
    (
        (docc(deep), sectcs(deep, 5)),
        proptest::bool::weighted(0.4),
        plain_map_url(),
        proptest::bool::weighted(0.3),
        proptest::collection::vec(fwdc(), 0..6),
    )
        .prop_map(|((doc, sects), sectioned, map_url, original, probes)| Again {
            sects: if sectioned { sects } else { vec![SectC { dl: 0, dc: 0, doc }] },
            sectioned,
            map_url,
            original,
            probes,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeAgain {
    large: LargeC,
    sects: Option<SectsC>,
    rest: Again,
}

fn large_again(deep: bool) -> BoxedStrategy<LargeAgain> {
    (largec(if deep { 70_000 } else { 3000 }), proptest::option::weighted(0.3, sectsc(300)), again(false))
        .prop_map(|(large, sects, mut rest)| {
            rest.sects = vec![];
            rest.sectioned = sects.is_some();
            LargeAgain { large, sects, rest }
        })
        .boxed()
}

fn c33_large(c: &LargeAgain, o: &mut Obs) -> Result<(), String> {
    let mut rest = c.rest.clone();
    rest.sects = match &c.sects {
        Some(s) => s.sects(),
        None => vec![SectC { dl: 0, dc: 0, doc: c.large.doc() }],
    };
    c33(&rest, o)
}

// ------------------------------------------------------------------ C34

/// How a document differs from the one it is made from.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tweak {
    Same,
    /// Sources in another order; the mappings keep their numbers.
    Sources,
    Names,
    NoContents,
    /// Other contents.
    Contents,
    Root(Option<String>),
    /// Columns one further right.
    Columns,
    Fewer,
    Else(DocC),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Actor {
    Plain { tweak: Tweak, map_url: Option<String> },
    /// The tweaked document between two sections.
    Sectioned { tweak: Tweak, map_url: Option<String>, line: u32, col: u32 },
    Generator { maps: Vec<MapC>, contents: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Company {
    doc: DocC,
    actors: Vec<Actor>,
    /// Who acts, and what consumers are asked.
    steps: Vec<(u8, ReqC)>,
    threads: bool,
}

fn tweaked(d: &DocC, t: &Tweak) -> DocC {
    let mut d = d.clone();
    match t {
        Tweak::Same => {}
        Tweak::Sources => d.sources.reverse(),
        Tweak::Names => d.names.reverse(),
        Tweak::NoContents => d.contents = None,
        Tweak::Contents => d.contents = Some((0..d.sources.len()).map(|i| Some(format!("other {}", i))).collect()),
        Tweak::Root(r) => d.root = r.clone(),
        Tweak::Columns => d.segs.iter_mut().for_each(|s| s.gc = (s.gc + 1).min(MAXP)),
        Tweak::Fewer => {
            d.segs.pop();
        }
        Tweak::Else(e) => d = e.clone(),
    }
    d
}

enum Live {
    Plain(Doc, BasicConsumer),
    Sectioned(Index, IndexedConsumer, bool),
    Generator(SourceMapGenerator, Vec<MapC>, usize, bool),
}

fn begin(c: &Company, a: &Actor) -> Result<Live, String> {
    Ok(match a {
        Actor::Plain { tweak, map_url } => {
            let d = build(&tweaked(&c.doc, tweak), map_url.as_deref());
            let b = open_basic(&d.text(), map_url.as_deref())?;
            Live::Plain(d, b)
        }
        Actor::Sectioned { tweak, map_url, line, col } => {
            let cap = |mut d: DocC| {
                d.segs.iter_mut().for_each(|s| s.gc = s.gc.min(1_000_000_000));
                d
            };
            let (own, other) = (cap(tweaked(&c.doc, tweak)), cap(c.doc.clone()));
            let x = build_index(&[SectC { dl: 0, dc: 0, doc: other.clone() }, SectC { dl: *line, dc: *col, doc: own }, SectC { dl: 1, dc: 0, doc: other }], map_url.as_deref());
            let b = open_index(&x.text(), map_url.as_deref())?;
            Live::Sectioned(x, b, false)
        }
        Actor::Generator { maps, contents } => Live::Generator(SourceMapGenerator::new(None, None, false), maps.clone(), 0, *contents),
    })
}

fn content_no(i: usize) -> String {
    format!("content {}", i)
}

/// Adds the next mapping.
fn feed(g: &mut SourceMapGenerator, maps: &[MapC], at: &mut usize, contents: bool) -> Result<(), String> {
    if let Some(m) = maps.get(*at) {
        add(g, m)?;
        if let (true, Some(o)) = (contents, &m.orig) {
            call(|| g.set_source_content(o.src.clone(), Some(content_no(*at)))).map_err(|e| format!("setting a content panics: {}", e))?;
        }
        *at += 1;
    }
    Ok(())
}

fn check_made(g: &mut SourceMapGenerator, maps: &[MapC], contents: bool) -> Result<(), String> {
    let d = decode(&doc_of(g)?)?;
    check_decoded(&d, maps)?;
    if contents {
        let last = |s: &str| maps.iter().rposition(|m| m.orig.as_ref().map_or(false, |o| o.src == s)).map(content_no);
        let srcs: Vec<String> = d.json["sources"].as_array().cloned().unwrap_or_default().iter().map(|s| s.as_str().unwrap_or("").to_string()).collect();
        for (i, s) in srcs.iter().enumerate() {
            let got = d.json["sourcesContent"][i].as_str().map(String::from);
            ensure!(got == last(s), "the content of {:?} is {:?}, set was {:?} ({})", s, got, last(s), d.json);
        }
    } else {
        ensure!(d.json.get("sourcesContent").is_none(), "no content was set: {}", d.json);
    }
    Ok(())
}

fn step(l: &mut Live, q: &ReqC) -> Result<bool, String> {
    match l {
        Live::Plain(d, b) => {
            let r = q.for_doc(d);
            let a = ask_basic(b, &r);
            let ok = match &r {
                Req::Fwd { line, col, lub } => check_fwd(d, *line, *col, lub.unwrap_or(false), &a),
                Req::Rev { src, line, col, lub } => check_rev(d, src, *line, *col, lub.unwrap_or(false), &a),
                Req::All { src, line, col } => check_all(d, src, *line, *col, &a),
                Req::Each { original } => match &a {
                    Ans::Recs(v) => check_enumeration(&d.segs, *original, &v.iter().map(|r| r.seg()).collect::<Vec<_>>()),
                    a => Err(format!("enumeration answered {:?}", a)),
                },
                Req::Content { src, panic } => {
                    let want = match d.find(src) {
                        _ if d.contents.is_none() => Some(None),
                        Some(i) => Some(d.content(i)),
                        None if panic.unwrap_or(true) => None,
                        None => Some(None),
                    };
                    let ok = match (&want, &a) {
                        (Some(w), Ans::Text(t)) => w == t,
                        (None, Ans::Panic(_)) => true,
                        _ => false,
                    };
                    if ok { Ok(()) } else { Err(format!("{:?} answered {:?}, expected {:?}", r, a, want)) }
                }
                Req::HasAll if a != Ans::Bool(d.has_all()) => Err(format!("has-all-contents answered {:?}", a)),
                Req::Sources if a != Ans::List(d.resolved.clone()) => Err(format!("sources answered {:?}, expected {:?}", a, d.resolved)),
                Req::Spans if a != Ans::Unit => Err(format!("computing spans answered {:?}", a)),
                _ => Ok(()),
            };
            ok.map_err(|e| format!("{} [document {} map URL {:?}]", e, d.json, d.map_url))?;
            Ok(a.delivers_mapping())
        }
        Live::Sectioned(x, b, spans) => {
            let r = q.for_index(x);
            let a = ask_indexed(b, &r);
            *spans |= r == Req::Spans;
            let list: Vec<String> = x.sects.iter().flat_map(|s| s.doc.resolved.clone()).collect();
            let ok = match &r {
                Req::Fwd { line, col, lub } => check_index_fwd(x, *line, *col, lub.unwrap_or(false), &a, *spans),
                Req::Rev { .. } | Req::All { .. } => check_index_reverse(x, &r, &a, *spans),
                Req::Sources if a != Ans::List(list.clone()) => Err(format!("sources answered {:?}, expected {:?}", a, list)),
                _ => Ok(()),
            };
            ok.map_err(|e| format!("{} [document {}]", e, x.json))?;
            Ok(a.delivers_mapping())
        }
        Live::Generator(g, maps, at, contents) => {
            // Asked for the document at every enumeration, else given a mapping.
            if let ReqC::Each { .. } = q {
                check_made(g, &maps[..*at], *contents && maps[..*at].iter().any(|m| m.orig.is_some()))?;
            } else {
                feed(g, maps, at, *contents)?;
            }
            Ok(false)
        }
    }
}

fn end(l: &mut Live) -> Result<(), String> {
    if let Live::Generator(g, maps, at, contents) = l {
        while *at < maps.len() {
            feed(g, maps, at, *contents)?;
        }
        check_made(g, maps, *contents && maps.iter().any(|m| m.orig.is_some()))?;
    }
    Ok(())
}

fn c34(c: &Company, o: &mut Obs) -> Result<(), String> {
    let n = c.actors.len();
    if n == 0 {
        return Ok(());
    }
    for a in &c.actors {
        if let Actor::Generator { maps, .. } = a {
            lists_sorted(maps, &[])?;
        }
    }
    let in_company = |i: usize, e: String| format!("{} [{:?}, number {} of {} {}]", e, c.actors[i], i, n, if c.threads { "in as many threads" } else { "in turn" });
    let mut hits = vec![0usize; n];
    if c.threads {
        let barrier = Barrier::new(n);
        let out: Vec<Result<usize, String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..n)
                .map(|i| {
                    let (c, barrier) = (&*c, &barrier);
                    s.spawn(move || {
                        barrier.wait();
                        let mut l = begin(c, &c.actors[i])?;
                        let mut hits = 0;
                        for (k, q) in &c.steps {
                            if *k as usize % n == i {
                                hits += step(&mut l, q)? as usize;
                            }
                        }
                        end(&mut l)?;
                        Ok(hits)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|e| std::panic::resume_unwind(e))).collect()
        });
        for (i, r) in out.into_iter().enumerate() {
            hits[i] = r.map_err(|e| in_company(i, e))?;
        }
    } else {
        let mut live = vec![];
        for (i, a) in c.actors.iter().enumerate() {
            live.push(begin(c, a).map_err(|e| in_company(i, e))?);
        }
        for (k, q) in &c.steps {
            let i = *k as usize % n;
            hits[i] += step(&mut live[i], q).map_err(|e| in_company(i, e))? as usize;
        }
        for (i, l) in live.iter_mut().enumerate() {
            end(l).map_err(|e| in_company(i, e))?;
        }
    }
    o.class(if c.threads { "threads" } else { "one thread" });
    o.class_if(c.actors.iter().any(|a| matches!(a, Actor::Generator { .. })), "with generators");
    o.class_if(c.actors.iter().any(|a| matches!(a, Actor::Sectioned { .. })), "with sectioned maps");
    o.nontrivial_if(hits.iter().filter(|h| **h > 0).count() >= 2);
    Ok(())
}

fn company(deep: bool) -> BoxedStrategy<Company> {
    let tweak = || {
        prop_oneof![
            2 => Just(Tweak::Same),
            1 => Just(Tweak::Sources),
            1 => Just(Tweak::Names),
            1 => Just(Tweak::NoContents),
            1 => Just(Tweak::Contents),
            1 => plain_root().prop_map(Tweak::Root),
            1 => Just(Tweak::Columns),
            1 => Just(Tweak::Fewer),
            1 => docc(false).prop_map(Tweak::Else),
        ]
    };
    let actor = prop_oneof![
        6 => (tweak(), plain_map_url()).prop_map(|(tweak, map_url)| Actor::Plain { tweak, map_url }),
        2 => (tweak(), plain_map_url(), 0u32..6, 0u32..20).prop_map(|(tweak, map_url, line, col)| Actor::Sectioned { tweak, map_url, line, col }),
        2 => (maps(false), any::<bool>()).prop_map(|(maps, contents)| Actor::Generator { maps, contents }),
    ];
    (docc(deep), proptest::collection::vec(actor, 2..6), proptest::collection::vec((any::<u8>(), reqc()), 4..30), proptest::bool::weighted(0.3))
        .prop_map(|(doc, actors, steps, threads)| Company { doc, actors, steps, threads })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeCompany {
    large: LargeC,
    rest: Company,
}

fn large_company(deep: bool) -> BoxedStrategy<LargeCompany> {
    (largec(if deep { 70_000 } else { 3000 }), company(false), proptest::collection::vec((any::<u8>(), reqc()), 0..60), proptest::bool::weighted(0.8))
        .prop_map(|(large, mut rest, steps, threads)| {
            rest.doc = DocC { sources: vec![], names: vec![], root: None, file: None, contents: None, segs: vec![], unsorted: false };
            rest.steps.extend(steps);
            rest.threads = threads;
            LargeCompany { large, rest }
        })
        .boxed()
}

fn c34_large(c: &LargeCompany, o: &mut Obs) -> Result<(), String> {
    c34(&Company { doc: c.large.doc(), ..c.rest.clone() }, o)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C33", assumptions: &["well-formed maps", "lines beyond 200 000 are left out of the flattened map: each costs a character"], suites: vec![
            suite("again", "plain and sectioned documents enumerated and added, with the sources and names reported, to a fresh generator whose document is opened; non-trivial: 3+ mappings of 2+ sources, or 2+ sections and 2+ mappings with original",
                15_000, 400_000, again, c33),
            suite("large", "documents of up to 3000 (thorough 70 000) mappings, or 300 sections; non-trivial as above",
                400, 4_000, large_again, c33_large)] },
        Property { id: "C34", assumptions: &["well-formed maps", "schedules of threads are the machine's"], suites: vec![
            suite("company", "2-5 consumers and generators of one document and variants of it, 4-29 steps in turn or in as many threads; non-trivial: two consumers that find mappings",
                10_000, 300_000, company, c34),
            suite("large", "the same with documents of up to 3000 (thorough 70 000) mappings and up to 90 steps, mostly in threads; non-trivial as above",
                150, 1_500, large_company, c34_large)] },
    ]
}
