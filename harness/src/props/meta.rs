//! C35, C36: documents that say the same in another way.

use crate::ensure;
use crate::gens::*;
use crate::large::{largec, LargeC};
use crate::model::*;
use crate::props::lookup::open as open_basic;
use crate::props::sections::open as open_index;
use crate::runner::*;
use crate::vlq::{Orig, Seg};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};

/// A mapping written out: generated position, and source, original position
/// and name; one-based lines.
type Plain = (i64, i64, Option<(String, u32, u32, Option<String>)>);

fn written(gl: i64, gc: i64, o: &Option<Orig>, d: &Doc) -> Plain {
    let text = |t: &[String], i: u32| t.get(i as usize).cloned().unwrap_or_else(|| format!("<number {} of {}>", i, t.len()));
    (gl, gc, o.as_ref().map(|o| (text(&d.resolved, o.src), o.line, o.col, o.name.map(|n| text(&d.names, n)))))
}

/// Found without the end of the span.
fn no_span(a: &Ans) -> Ans {
    a.no_spans()
}

// ------------------------------------------------------------------ C35

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    doc: DocC,
    map_url: Option<String>,
    cuts: Vec<PosC>,
    /// Sections list only what they use.
    own_tables: bool,
    spans: bool,
    probes: Vec<ReqC>,
}

/// The part of the document between two positions, relative to the first.
fn part(d: &Doc, from: (u32, u32), to: Option<(u32, u32)>, own_tables: bool, original: &DocC) -> DocC {
    let mut segs: Vec<Seg> = d.text_segs.iter().filter(|s| (s.gl, s.gc) >= from && to.map_or(true, |t| (s.gl, s.gc) < t)).cloned().collect();
    for s in &mut segs {
        if s.gl == from.0 {
            s.gc -= from.1;
        }
        s.gl -= from.0;
    }
    let (mut sources, mut names, mut contents) = (d.sources.clone(), d.names.clone(), d.contents.clone());
    if own_tables {
        let used: Vec<u32> = segs.iter().filter_map(|s| s.orig.as_ref()).map(|o| o.src).collect::<BTreeSet<_>>().into_iter().collect();
        let named: Vec<u32> = segs.iter().filter_map(|s| s.orig.as_ref()?.name).collect::<BTreeSet<_>>().into_iter().collect();
        for o in segs.iter_mut().filter_map(|s| s.orig.as_mut()) {
            o.src = used.binary_search(&o.src).unwrap_or(0) as u32;
            o.name = o.name.map(|n| named.binary_search(&n).unwrap_or(0) as u32);
        }
        sources = used.iter().map(|i| d.sources[*i as usize].clone()).collect();
        names = named.iter().map(|i| d.names[*i as usize].clone()).collect();
        contents = contents.map(|_| used.iter().map(|i| d.content(*i)).collect());
    }
    DocC {
        sources,
        names,
        root: d.root.clone(),
        file: original.file.clone(),
        contents,
        segs: segs
            .into_iter()
            .map(|s| SegC { gl: s.gl, gc: s.gc, orig: s.orig.map(|o| OrigC { src: o.src, line: o.line, col: o.col, name: o.name }) })
            .collect(),
        unsorted: original.unsorted,
    }
}

fn c35(c: &Cut, o: &mut Obs) -> Result<(), String> {
    let url = c.map_url.as_deref();
    let d = build(&c.doc, url);
    let near: Vec<(u32, u32)> = d.segs.iter().map(|s| (s.gl, s.gc)).collect();
    let mut at: Vec<(u32, u32)> = c.cuts.iter().map(|p| p.resolve(&near)).map(|(l, k)| (l as u32 - 1, (k as u32).min(MAXP))).collect();
    at.push((0, 0));
    at.sort();
    at.dedup();
    let sects: Vec<Sect> = (0..at.len())
        .map(|i| Sect { line: at[i].0, col: at[i].1, doc: build(&part(&d, at[i], at.get(i + 1).copied(), c.own_tables, &c.doc), url) })
        .collect();
    let json = index_json(&sects);
    let x = Index { sects, json };
    let ctx = |e: String| format!("{} [whole {} cut {} map URL {:?}]", e, d.json, x.json, c.map_url);

    let mut whole = open_basic(&d.text(), url)?;
    let mut cut = open_index(&x.text(), url)?;
    if c.spans {
        ask_basic(&mut whole, &Req::Spans);
        ask_indexed(&mut cut, &Req::Spans);
    }
    let mut places: HashMap<(u32, u32), usize> = HashMap::new();
    for s in &d.segs {
        *places.entry((s.gl, s.gc)).or_default() += 1;
    }
    let tied = |gl: u32, gc: u32| places.get(&(gl, gc)).map_or(false, |n| *n > 1);

    // Enumeration.
    let (a, b) = (ask_basic(&mut whole, &Req::Each { original: false }), ask_indexed(&mut cut, &Req::Each { original: false }));
    let (Ans::Recs(a), Ans::Recs(b)) = (&a, &b) else { return Err(ctx(format!("enumerating answers {:?} and {:?}", a, b))) };
    let of = |r: &Rec| x.at(r.gl as i64, r.gc as i64).map_or(&d, |i| &x.sects[i].doc);
    let av: Vec<Plain> = a.iter().map(|r| written(r.gl as i64, r.gc as i64, &r.orig, &d)).collect();
    let bv: Vec<Plain> = b.iter().map(|r| written(r.gl as i64, r.gc as i64, &r.orig, of(r))).collect();
    ensure!(bv.windows(2).all(|w| (w[0].0, w[0].1) <= (w[1].0, w[1].1)), "{}", ctx(format!("enumerated out of order: {:?}", b)));
    ensure!(sorted(&av) == sorted(&bv), "{}", ctx(format!("enumerated {:?}, the whole has {:?}", bv, av)));
    if c.spans {
        for (s, t) in a.iter().zip(b).filter(|(s, _)| !tied(s.gl, s.gc)) {
            // A section begins where it begins, mapped or not.
            let next = at.get(at.partition_point(|p| *p <= (s.gl, s.gc))).filter(|p| p.0 == s.gl).map(|p| p.1);
            let want = s.last.into_iter().chain(next).min();
            ensure!(t.last == want, "{}", ctx(format!("{:?} ends at {:?}, expected {:?}: {:?} in the whole", t, t.last, want, s)));
        }
    }

    let mut hits = BTreeSet::new();
    let mut crossed = false;
    for q in &c.probes {
        match q.for_doc(&d) {
            r @ Req::Fwd { line, col, lub } => {
                let k = d.fwd(line as i64 - 1, col as i64, lub.unwrap_or(false));
                let i = x.at(line as i64 - 1, col as i64);
                let Ans::Found(got) = no_span(&ask_indexed(&mut cut, &r)) else { return Err(ctx(format!("{:?} panics when cut", r))) };
                // The nearest mapping must be in the position's own section.
                let here = k.first().map_or(false, |s| x.at(s.gl as i64, s.gc as i64) == i);
                crossed |= !here && !k.is_empty();
                if !here {
                    ensure!(got.is_none(), "{}", ctx(format!("{:?} finds {:?}, which no mapping of its section is", r, got)));
                } else if k.iter().collect::<BTreeSet<_>>().len() == 1 {
                    let Ans::Found(w) = no_span(&ask_basic(&mut whole, &r)) else { return Err(ctx(format!("{:?} panics", r))) };
                    ensure!(got == w, "{}", ctx(format!("{:?} finds {:?}, but {:?} in the whole", r, got, w)));
                    if got.is_some() {
                        hits.insert(i);
                    }
                } else {
                    let allowed: Vec<Option<Found>> = k.iter().map(|s| expect_found(&d, s)).collect();
                    ensure!(allowed.contains(&got), "{}", ctx(format!("{:?} finds {:?}, expected one of {:?}", r, got, allowed)));
                }
            }
            r @ (Req::Rev { .. } | Req::All { .. } | Req::Content { .. }) => {
                let src = match &r {
                    Req::Rev { src, .. } | Req::All { src, .. } | Req::Content { src, .. } => src.clone(),
                    _ => continue,
                };
                // Only names that mean one entry of the whole, and the same in every section.
                let Some(e) = d.find(&src) else { continue };
                let meant = &d.resolved[e as usize];
                let listing: Vec<(usize, u32)> = x.sects.iter().enumerate().filter_map(|(i, s)| Some((i, s.doc.find(&src)?))).collect();
                if d.resolved.iter().filter(|s| *s == meant).count() != 1 || listing.iter().any(|(i, j)| x.sects[*i].doc.resolved[*j as usize] != *meant) {
                    continue;
                }
                if let Req::Content { .. } = r {
                    // A source no mapping refers to may be in no section.
                    let r = Req::Content { src: src.clone(), panic: Some(false) };
                    let (w, got) = (ask_basic(&mut whole, &r), ask_indexed(&mut cut, &r));
                    ensure!(w == got || listing.is_empty(), "{}", ctx(format!("{:?} answers {:?}, but {:?} in the whole", r, got, w)));
                    o.class("content");
                    continue;
                }
                let users: BTreeSet<Option<usize>> = d.of_source(e).iter().map(|s| x.at(s.gl as i64, s.gc as i64)).collect();
                let Some(first) = listing.first() else { continue };
                if users.len() > 1 || users.iter().any(|u| *u != Some(first.0)) {
                    continue;
                }
                // All its mappings are in the section that answers for it.
                let (w, got) = (ask_basic(&mut whole, &r), ask_indexed(&mut cut, &r));
                match (&w, &got) {
                    (Ans::Found(f), Ans::GenPos(g)) => {
                        let (line, col, lub) = match &r {
                            Req::Rev { line, col, lub, .. } => (*line, *col, lub.unwrap_or(false)),
                            _ => continue,
                        };
                        if d.rev(e, line as i64 - 1, col as i64, lub).iter().map(|s| (s.gl, s.gc)).collect::<BTreeSet<_>>().len() <= 1 {
                            ensure!(f.as_ref().map(|f| f.gen) == *g, "{}", ctx(format!("{:?} finds {:?}, but {:?} in the whole", r, g, f)));
                        }
                    }
                    (Ans::Recs(v), Ans::Recs(u)) => {
                        let s = &x.sects[first.0].doc;
                        let v: Vec<Plain> = v.iter().map(|r| written(r.gl as i64, r.gc as i64, &r.orig, &d)).collect();
                        let u: Vec<Plain> = u.iter().map(|r| written(r.gl as i64, r.gc as i64, &r.orig, s)).collect();
                        ensure!(sorted(&v) == sorted(&u), "{}", ctx(format!("{:?} finds {:?}, but {:?} in the whole", r, u, v)));
                    }
                    _ => return Err(ctx(format!("{:?} answers {:?}, but {:?} in the whole", r, got, w))),
                }
                if w.delivers_mapping() {
                    hits.insert(Some(first.0));
                    o.class("reverse");
                }
            }
            _ => {}
        }
    }
    o.class_if(crossed, "nearest mapping in another section");
    o.class_if(c.own_tables, "own tables");
    o.class_if(at.windows(2).any(|w| w[0].0 == w[1].0), "cut within a line");
    o.nontrivial_if(hits.len() >= 2);
    Ok(())
}

fn cut(deep: bool) -> BoxedStrategy<Cut> {
    let probe = prop_oneof![5 => fwdc(), 2 => revc(), 2 => allc(), 1 => contentc()];
    (docc(deep), plain_map_url(), proptest::collection::vec(posc(), 1..6), any::<bool>(), any::<bool>(), proptest::collection::vec(probe, 2..14))
        .prop_map(|(doc, map_url, cuts, own_tables, spans, probes)| Cut { doc, map_url, cuts, own_tables, spans, probes })
        .boxed()
}

fn nothing() -> DocC {
    DocC { sources: vec![], names: vec![], root: None, file: None, contents: None, segs: vec![], unsorted: false }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeCut {
    large: LargeC,
    /// Further cuts at every so many mappings.
    every: u32,
    rest: Cut,
}

fn large_cut(deep: bool) -> BoxedStrategy<LargeCut> {
    let every = prop_oneof![2 => Just(0u32), 2 => 5u32..=200, 1 => 200u32..=3000];
    (largec(if deep { 70_000 } else { 3000 }), every, cut(false))
        .prop_map(|(large, every, mut rest)| {
            rest.doc = nothing();
            LargeCut { large, every, rest }
        })
        .boxed()
}

fn c35_large(c: &LargeCut, o: &mut Obs) -> Result<(), String> {
    let mut rest = Cut { doc: c.large.doc(), ..c.rest.clone() };
    if c.every > 0 {
        // Each section goes through the whole document.
        let every = c.every.max(c.large.segs / 400 + 1);
        rest.cuts.extend((0..c.large.segs / every).map(|i| PosC::Near { k: i * every, dl: 0, dc: (i % 3) as i8 - 1 }));
    }
    c35(&rest, o)
}

// ------------------------------------------------------------------ C36

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Restated {
    doc: DocC,
    map_url: Option<String>,
    /// Where each entry goes; the last decides among equals.
    source_keys: Vec<u16>,
    name_keys: Vec<u16>,
    seg_keys: Vec<u16>,
    /// Entries nothing refers to.
    more_sources: Vec<String>,
    more_names: Vec<String>,
    file: Option<String>,
    members: Vec<(String, u8)>,
    /// Null instead of a member left out.
    probes: Vec<ReqC>,
}

/// A permutation: new position of each of n entries.
fn shuffled(n: usize, keys: &[u16]) -> Vec<usize> {
    let mut by: Vec<usize> = (0..n).collect();
    by.sort_by_key(|i| (if keys.is_empty() { 0 } else { keys[i % keys.len()] ^ ((i / keys.len()) as u16).wrapping_mul(40503) }, *i));
    let mut to = vec![0; n];
    for (new, old) in by.into_iter().enumerate() {
        to[old] = new;
    }
    to
}

fn c36(c: &Restated, o: &mut Obs) -> Result<(), String> {
    let url = c.map_url.as_deref();
    let d = build(&c.doc, url);
    // Further sources must not be another name for a listed one.
    let more: Vec<&String> = {
        let mut known: std::collections::HashSet<String> = d.resolved.iter().cloned().collect();
        c.more_sources
            .iter()
            .filter(|s| {
                let r = crate::urlmodel::compute_source_url(d.root.as_deref(), s, url);
                known.insert(r)
            })
            .collect()
    };
    let (n, m) = (d.sources.len(), d.names.len());
    let st = shuffled(n + more.len(), &c.source_keys);
    let nt = shuffled(m + c.more_names.len(), &c.name_keys);
    let mut e = DocC { file: c.file.clone(), ..c.doc.clone() };
    e.sources = vec![String::new(); st.len()];
    let mut k: Vec<Option<String>> = vec![None; st.len()];
    for (i, to) in st.iter().enumerate() {
        e.sources[*to] = if i < n { d.sources[i].clone() } else { more[i - n].clone() };
        k[*to] = if i < n { d.content(i as u32) } else { Some(format!("content of {}", more[i - n])) };
    }
    e.contents = d.contents.as_ref().map(|_| k);
    e.names = vec![String::new(); nt.len()];
    for (i, to) in nt.iter().enumerate() {
        e.names[*to] = if i < m { d.names[i].clone() } else { c.more_names[i - m].clone() };
    }
    let mut segs = d.text_segs.clone();
    for o in segs.iter_mut().filter_map(|s| s.orig.as_mut()) {
        o.src = st[o.src as usize] as u32;
        o.name = o.name.map(|n| nt[n as usize] as u32);
    }
    // The segments of a line in another order.
    let gt = shuffled(segs.len(), &c.seg_keys);
    let mut by: Vec<(u32, usize, Seg)> = segs.into_iter().enumerate().map(|(i, s)| (s.gl, gt[i], s)).collect();
    by.sort_by_key(|t| (t.0, t.1));
    let mut e = build_from(&e, url, by.into_iter().map(|t| t.2).collect());
    if let Some(v) = e.json.as_object_mut() {
        for (k, w) in &c.members {
            let w = match w % 5 {
                0 => serde_json::json!(null),
                1 => serde_json::json!([k, 1, {"sections": []}]),
                2 => serde_json::json!({"version": 2, "mappings": "!"}),
                3 => serde_json::json!(-1.5),
                _ => serde_json::json!("sections"),
            };
            v.entry(k.clone()).or_insert(w);
        }
    }
    let ctx = |t: String| format!("{} [document {} restated {} map URL {:?}]", t, d.json, e.json, c.map_url);
    let mut p = open_basic(&d.text(), url)?;
    let mut q = open_basic(&e.text(), url).map_err(ctx)?;
    let mut found = 0;
    let listed = |r: &Rec, d: &Doc| written(r.gl as i64, r.gc as i64, &r.orig, d);
    for r in &c.probes {
        let r = r.for_doc(&d);
        let same = |s: &str| -> Option<(u32, u32)> {
            let (i, j) = (d.find(s)?, e.find(s)?);
            let n = &d.resolved[i as usize];
            (*n == e.resolved[j as usize] && d.resolved.iter().filter(|s| *s == n).count() == 1).then_some((i, j))
        };
        let (a, b) = match &r {
            Req::Rev { src, .. } | Req::All { src, .. } | Req::Content { src, .. } if same(src).is_none() => {
                if d.find(src).is_some() || e.find(src).is_some() {
                    continue;
                }
                (ask_basic(&mut p, &r), ask_basic(&mut q, &r))
            }
            _ => (ask_basic(&mut p, &r), ask_basic(&mut q, &r)),
        };
        let differ = || Err(ctx(format!("{:?} is answered {:?}, restated {:?}", r, a, b)));
        match (&r, &a, &b) {
            (_, Ans::Panic(_), Ans::Panic(_)) => {}
            (Req::Fwd { line, col, lub }, Ans::Found(_), Ans::Found(g)) => {
                let k: Vec<Option<Found>> = d.fwd(*line as i64 - 1, *col as i64, lub.unwrap_or(false)).iter().map(|s| expect_found(&d, s)).collect();
                let one = k.iter().collect::<BTreeSet<_>>().len() <= 1;
                let bare = |f: &Option<Found>| f.as_ref().map(|f| Found { last: None, ..f.clone() });
                if (one && a.no_spans() != b.no_spans()) || (!one && !k.contains(&bare(g))) {
                    return differ();
                }
                found += g.is_some() as usize;
            }
            (Req::Rev { src, line, col, lub }, Ans::Found(_), Ans::Found(g)) => {
                let k = same(src).map(|(i, _)| d.rev(i, *line as i64 - 1, *col as i64, lub.unwrap_or(false)).iter().map(|s| expect_found(&d, s)).collect::<Vec<_>>()).unwrap_or_default();
                let one = k.iter().collect::<BTreeSet<_>>().len() <= 1;
                let bare = |f: &Option<Found>| f.as_ref().map(|f| Found { last: None, ..f.clone() });
                if (one && a.no_spans() != b.no_spans()) || (!one && !k.contains(&bare(g))) {
                    return differ();
                }
                found += g.is_some() as usize;
            }
            (Req::All { .. }, Ans::Recs(v), Ans::Recs(w)) | (Req::Each { original: false }, Ans::Recs(v), Ans::Recs(w)) => {
                let (v, w): (Vec<Plain>, Vec<Plain>) = (v.iter().map(|r| listed(r, &d)).collect(), w.iter().map(|r| listed(r, &e)).collect());
                if sorted(&v) != sorted(&w) {
                    return differ();
                }
                found += (!w.is_empty()) as usize;
            }
            (Req::Each { original: true }, Ans::Recs(v), Ans::Recs(w)) => {
                let (v, w): (Vec<Plain>, Vec<Plain>) = (v.iter().map(|r| listed(r, &d)).collect(), w.iter().map(|r| listed(r, &e)).collect());
                if sorted(&v) != sorted(&w) {
                    return differ();
                }
                // Within a source the order has nothing to do with its number.
                let mut times: HashMap<&String, usize> = HashMap::new();
                for s in &d.resolved {
                    *times.entry(s).or_default() += 1;
                }
                let by = |v: &[Plain]| -> HashMap<String, Vec<(u32, u32)>> {
                    let mut m: HashMap<String, Vec<(u32, u32)>> = HashMap::new();
                    for o in v.iter().filter_map(|p| p.2.as_ref()).filter(|o| times.get(&o.0) == Some(&1)) {
                        m.entry(o.0.clone()).or_default().push((o.1, o.2));
                    }
                    m
                };
                if by(&v) != by(&w) {
                    return differ();
                }
            }
            (Req::Sources, Ans::List(v), Ans::List(w)) => {
                let mut v = v.clone();
                v.extend(more.iter().map(|s| crate::urlmodel::compute_source_url(d.root.as_deref(), s, url)));
                if sorted(&v) != sorted(w) {
                    return differ();
                }
            }
            (Req::HasAll, Ans::Bool(_), Ans::Bool(h)) => {
                if *h != d.has_all() {
                    return differ();
                }
            }
            _ => {
                if a != b {
                    return differ();
                }
            }
        }
    }
    let moved = st.iter().take(n).enumerate().any(|(i, t)| i != *t);
    o.class_if(moved, "sources renumbered");
    o.class_if(nt.iter().take(m).enumerate().any(|(i, t)| i != *t), "names renumbered");
    o.class_if(gt.iter().enumerate().any(|(i, t)| i != *t), "segments reordered");
    o.class_if(!more.is_empty(), "unused sources");
    o.nontrivial_if(moved && found >= 2);
    Ok(())
}

fn restated(deep: bool) -> BoxedStrategy<Restated> {
    let keys = || proptest::collection::vec(any::<u16>(), 0..12);
    let member = proptest::sample::select(vec!["x_google_ignoreList", "debugId", "names2", "Sources", "sectionsContent", "x", "", "mapping", "source_root", "é"]);
    (
        (docc(deep), plain_map_url()),
        (keys(), keys(), keys()),
        (proptest::collection::vec(plain_source(), 0..3), proptest::collection::vec(name(), 0..3)),
        proptest::option::of(text()),
        proptest::collection::vec((member.prop_map(String::from), any::<u8>()), 0..3),
        proptest::collection::vec(reqc(), 3..14),
    )
        .prop_map(|((doc, map_url), (source_keys, name_keys, seg_keys), (more_sources, more_names), file, members, probes)| Restated {
            doc,
            map_url,
            source_keys,
            name_keys,
            seg_keys,
            more_sources,
            more_names,
            file,
            members,
            probes,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LargeRestated {
    large: LargeC,
    /// Unused entries before, among and behind the used ones.
    more: u32,
    rest: Restated,
}

fn large_restated(deep: bool) -> BoxedStrategy<LargeRestated> {
    let more = prop_oneof![4 => Just(0u32), 2 => 100u32..=3000, 1 => 30_000u32..=70_000];
    (largec(if deep { 70_000 } else { 3000 }), more, restated(false))
        .prop_map(move |(large, more, mut rest)| {
            rest.doc = nothing();
            LargeRestated { large, more, rest }
        })
        .boxed()
}

fn c36_large(c: &LargeRestated, o: &mut Obs) -> Result<(), String> {
    let mut rest = Restated { doc: c.large.doc(), ..c.rest.clone() };
    if c.rest.seg_keys.len() % 2 == 0 {
        rest.more_names.extend((0..c.more).map(|i| format!("unused{}", i)));
    } else {
        rest.more_sources.extend((0..c.more.min(4000)).map(|i| format!("u/unused{}.js", i)));
    }
    c36(&rest, o)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C35", assumptions: &["well-formed maps"], suites: vec![
            suite("cut", "a plain document and its cuts at 1-5 positions, requests to both; non-trivial: mappings found in two sections",
                30_000, 800_000, cut, c35),
            suite("large", "plain documents of up to 3000 (thorough 70 000) mappings, cut at up to 400 positions; non-trivial as above",
                600, 6_000, large_cut, c35_large)] },
        Property { id: "C36", assumptions: &["well-formed maps", "further sources are not other names of listed ones"], suites: vec![
            suite("restated", "a plain document and one with the same mappings, tables and lines in another order, unused entries and unknown members, 3-13 requests to both; non-trivial: sources renumbered and two mappings found",
                30_000, 800_000, restated, c36),
            suite("large", "plain documents of up to 3000 (thorough 70 000) mappings restated, with up to 4000 unused sources or 70 000 unused names; non-trivial as above",
                400, 6_000, large_restated, c36_large)] },
    ]
}
