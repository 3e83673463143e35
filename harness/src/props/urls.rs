//! C15, C16, C18: URL references.

use crate::ensure;
use crate::large::Rng;
use crate::model::*;
use crate::runner::*;
use crate::urlmodel::{self, Kind};
use crate::dict;
use crate::vlq::{Orig, Seg};
use proptest::prelude::*;
use proptest::sample::select;
use rusty_source_map::consumer::create_consumer;
use rusty_source_map::util;
use serde::{Deserialize, Serialize};

fn seg() -> BoxedStrategy<String> {
    let fixed = prop_oneof![
        8 => select(vec!["a", "b", "c", "lib", "src", "index.js", "a.js"]),
        4 => select(vec!["..", "."]),
        1 => select(vec!["a\\b", "..\\c", "%2e", "%2e%2e", ".%2E", "%2E.", "..%2e", "x|y", "[id]", "a;b", "100%", "%zz", "%5C", "%2F", "b:c", "1:2", ":", "a:b:c", "é:x", "http:", "a,b", "!x!./y", "*.js", "=", "`"]),
        3 => select(vec!["p0", "p1", "p", "host", "x y", "ü", "日本", "a..b", "...", "~", "@scope", "%20", "+", "$", ".hidden", "a.", "<t>", "a&b=c", "C", "(x)", "q'", "p", "u"]),
    ]
    .prop_map(String::from);
    prop_oneof![32 => fixed, 2 => dict::segment(), 1 => Just(String::new())].boxed()
}

fn path(min: usize) -> BoxedStrategy<String> {
    // All the short segments a library might take for itself.
    let taken = (0usize..40, any::<bool>()).prop_map(|(n, up)| {
        let n = if n == 39 { 300 } else { n };
        let v: Vec<String> = (0..n).map(|i| format!("p{}", i)).collect();
        format!("{}{}", if up { "../" } else { "" }, v.join(if n % 2 == 0 { "/" } else { "-" }))
    });
    let taken = taken.prop_filter("long enough", move |p| min == 0 || !p.is_empty());
    prop_oneof![40 => few(min), 1 => taken].boxed()
}

fn few(min: usize) -> BoxedStrategy<String> {
    (proptest::collection::vec(seg(), min..5), any::<bool>())
        .prop_map(|(v, dir)| {
            let mut s = v.join("/");
            if dir && !s.is_empty() {
                s.push('/');
            }
            if v.len() == 1 && s.is_empty() { "a".into() } else { s }
        })
        .boxed()
}

/// A path as a relative reference: a colon or an empty segment in front would
/// make it another one.
fn relative_path(p: String) -> String {
    if urlmodel::kind_of(&p) == Kind::PathRel { p } else { format!("./{}", p) }
}

/// What may follow "c:/" or "webpack:///": an empty segment would be a host.
fn below_slash(p: String) -> String {
    if p.starts_with('/') { format!("a{}", p) } else { p }
}

/// File URLs have rules of their own about empty segments: there are none then.
fn settle<'a>(refs: impl Iterator<Item = &'a mut String>) {
    let mut refs: Vec<&mut String> = refs.collect();
    let file = |s: &str| s.get(..5).map_or(false, |h| h.eq_ignore_ascii_case("file:"));
    if !refs.iter().any(|r| file(r)) {
        return;
    }
    for r in &mut refs {
        let start = r.find("://").map(|i| i + 3).unwrap_or(if r.starts_with("//") { 2 } else { 0 });
        let start = if file(r) && r[start..].starts_with('/') { start + 1 } else { start };
        let end = r.find(['?', '#']).unwrap_or(r.len()).max(start);
        let mut path = r[start..end].to_string();
        while path.contains("//") {
            path = path.replace("//", "/");
        }
        **r = format!("{}{}{}", &r[..start], path, &r[end..]);
    }
}

fn pair(root: String, path: String) -> Pair {
    let mut p = Pair { root, path };
    settle([&mut p.root, &mut p.path].into_iter());
    p
}

fn spelled(names: Names, queries: Vec<(u8, u16, String)>) -> Spelled {
    let mut c = Spelled { names, queries };
    let n = &mut c.names;
    settle(n.sources.iter_mut().chain(n.root.iter_mut()).chain(n.map_url.iter_mut()).chain(c.queries.iter_mut().map(|q| &mut q.2)));
    c
}

fn tail() -> BoxedStrategy<String> {
    prop_oneof![
        12 => Just(""),
        1 => select(vec!["?", "#", "?#", "?a#", "?#b", "?v=1", "?a=b&c=../d", "?x/y", "#frag", "#a/../b", "?q#f", "?1", "#é", "?sp ace", "?vue&type=script"]),
    ]
    .prop_map(String::from)
    .boxed()
}

const HTTP: [&str; 12] = ["http://localhost:3000", "HTTP://H.Example", "https://h.example:443", "http://127.0.0.1", "http://h.example", "https://h.example", "https://h.example:8080", "http://h.example:8080", "http://u@h.example", "http://other.example", "http://u:p@h.example", "http://host"];
const ODD: [&str; 10] = ["file:///C:", "file:///d:", "file://server", "webpack://", "ng://App", "vscode-resource://x.y", "webpack://ns", "file://", "app://x", "webpack-internal://"];

/// A scheme and an authority, put together from few parts, so that two of them
/// often differ in one.
fn authority() -> BoxedStrategy<String> {
    (
        select(vec!["http", "http", "https", "https", "webpack", "app"]),
        select(vec!["", "", "", "u@", "v@", "u:p@", "u:q@"]),
        select(vec!["h.example", "h.example", "i.example", "h"]),
        select(vec!["", "", ":81", ":8080", ":8081"]),
    )
        .prop_map(|(s, u, h, p)| format!("{}://{}{}{}", s, u, h, p))
        .boxed()
}

/// A root, and a target that starts like it.
fn near_pair() -> BoxedStrategy<Pair> {
    let seg = || select(vec!["a", "b", "A", "ab", "p0", "x y", "é", "..", "a", "b", "A", "ab", "b:c", ""]).prop_map(String::from);
    let segs = move |n: usize| proptest::collection::vec(seg(), 0..n);
    let start = prop_oneof![
        3 => Just((String::new(), String::new())),
        3 => Just(("/".to_string(), "/".to_string())),
        1 => (select(vec!["//h.example/", "//i.example/", "//h.example:81/"]), select(vec!["//h.example/", "//i.example/", "//h.example:82/"])).prop_map(|(a, b)| (a.to_string(), b.to_string())),
        3 => (authority(), authority()).prop_map(|(a, b)| (a + "/", b + "/")),
        2 => authority().prop_map(|a| (format!("{}/", a), format!("{}/", a))),
    ];
    let of_root = prop_oneof![8 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)];
    (start, segs(4), segs(3), segs(4), any::<(bool, bool)>(), tail(), of_root, tail())
        .prop_map(|((a, b), shared, rest, other, (dir_a, dir_b), tail, of_root, own)| {
            // A root's query or fragment, its own or the target's.
            let root_tail = match of_root {
                0 => String::new(),
                1 => own,
                _ => tail.clone(),
            };
            let put = |start: &str, more: &[String], dir: bool| {
                let mut s = shared.iter().chain(more).cloned().collect::<Vec<_>>().join("/");
                if dir && !s.is_empty() {
                    s.push('/');
                }
                if s.starts_with('/') {
                    s.insert(0, '.');
                }
                if start.is_empty() { relative_path(s) } else { format!("{}{}", start, s) }
            };
            Pair { root: put(&a, &rest, dir_a) + &root_tail, path: put(&b, &other, dir_b) + &tail }
        })
        .boxed()
}

/// Absolute references that are not of the form scheme://host/path.
fn unhosted() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["data:text/javascript,x", "data:text/plain;base64,QUJD", "DATA:a/../b", "about:blank",
            "webpack:main", "webpack:a/../b.js", "node:fs", "javascript:void(0)", "x+y.z-1:a", "s3:k", "a1:b",
            "C:\\src\\a.ts", "blob:http://h.example/1-2"]).prop_map(String::from),
        2 => (select(vec!["c:/", "C:/", "webpack:/", "x-y:/", "h2:/"]), path(1)).prop_map(|(s, p)| format!("{}{}", s, below_slash(p))),
    ]
    .boxed()
}

/// A reference of any of the four kinds, or an absolute one without a host.
fn ref_of(tails: bool) -> BoxedStrategy<String> {
    prop_oneof![16 => url(tails), 1 => unhosted()].boxed()
}

/// A reference of any of the four kinds.
fn url(tails: bool) -> BoxedStrategy<String> {
    let t = if tails { tail() } else { Just(String::new()).boxed() };
    let p = prop_oneof![
        5 => path(0),
        2 => path(1).prop_map(|p| p),
        1 => select(vec!["", ".", "..", "../..", "a", "a/..", "./", "../"]).prop_map(String::from),
    ];
    prop_oneof![
        8 => p.clone().prop_map(relative_path),
        4 => path(0).prop_map(|p| if p.starts_with('/') { format!("/a/{}", p) } else { format!("/{}", p) }),
        2 => (prop_oneof![select(HTTP.to_vec()).prop_map(String::from), authority()], path(0), any::<bool>()).prop_map(|(h, p, bare)| if bare && p.is_empty() && h.starts_with("http") { h.to_string() } else { format!("{}/{}", h, p) }),
        1 => (select(ODD.to_vec()), path(1)).prop_map(|(h, p)| format!("{}/{}", h, below_slash(p))),
        2 => (select(vec!["//h.example", "//cdn.example", "//host"]), path(0)).prop_map(|(h, p)| format!("{}/{}", h, p)),
    ]
    .prop_flat_map(move |u| (Just(u), t.clone()))
    .prop_map(|(u, t)| u + &t)
    .boxed()
}

fn map_url(absolute: bool) -> BoxedStrategy<Option<String>> {
    let abs = (select(HTTP.to_vec()), path(1)).prop_map(|(h, p)| format!("{}/{}", h, p));
    let odd = (select(ODD.to_vec()), path(1)).prop_map(|(h, p)| format!("{}/{}", h, below_slash(p)));
    if absolute {
        prop_oneof![3 => Just(None), 5 => abs.prop_map(Some), 1 => odd.prop_map(Some)].boxed()
    } else {
        prop_oneof![2 => Just(None), 1 => Just(Some(String::new())), 4 => abs.prop_map(Some), 1 => odd.prop_map(Some), 4 => url(true).prop_map(Some)].boxed()
    }
}

fn root() -> BoxedStrategy<Option<String>> {
    prop_oneof![3 => Just(None), 1 => Just(Some(String::new())), 8 => url(false).prop_map(Some)].boxed()
}

/// Pairs and source lists for cross-validation.
pub fn pairs() -> BoxedStrategy<(String, String)> {
    prop_oneof![
        (url(false), ref_of(true)),
        near_pair().prop_map(|p| (p.root, p.path)),
    ]
    .boxed()
}
pub fn named() -> BoxedStrategy<(Vec<String>, Option<String>, Option<String>)> {
    names(false).prop_map(|n| (n.sources, n.root, n.map_url)).boxed()
}

fn kind_class(s: &str) -> &'static str {
    match urlmodel::kind_of(s) {
        Kind::Abs => "absolute",
        Kind::SchemeRel => "scheme-relative",
        Kind::PathAbs => "path-absolute",
        Kind::PathRel => "relative",
    }
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Names {
    sources: Vec<String>,
    root: Option<String>,
    map_url: Option<String>,
    sectioned: bool,
}

fn names(absolute_map: bool) -> BoxedStrategy<Names> {
    (proptest::collection::vec(ref_of(true), 0..6), root(), map_url(absolute_map), proptest::bool::weighted(0.1), any::<u8>())
        .prop_map(|(mut sources, root, map_url, sectioned, dup)| {
            if dup < 60 && sources.len() > 1 {
                let s = sources[0].clone();
                sources.push(s);
            }
            let mut n = Names { sources, root, map_url, sectioned };
            settle(n.sources.iter_mut().chain(n.root.iter_mut()).chain(n.map_url.iter_mut()));
            n
        })
        .boxed()
}

fn doc(c: &Names) -> DocC {
    DocC {
        sources: c.sources.clone(),
        names: vec![],
        root: c.root.clone(),
        file: None,
        contents: Some((0..c.sources.len()).map(|i| Some(format!("content {}", i))).collect()),
        segs: vec![],
        unsorted: false,
    }
}

fn c15(c: &Names, o: &mut Obs) -> Result<(), String> {
    let d = build(&doc(c), c.map_url.as_deref());
    let text = if c.sectioned { index_json(&[Sect { line: 0, col: 0, doc: d.clone() }]).to_string() } else { d.text() };
    let cons = call(|| create_consumer(&text, c.map_url.as_deref()))
        .map_err(|e| format!("opening {} with map URL {:?} panics: {}", text, c.map_url, e))?
        .map_err(|e| format!("opening {} gives {}", text, e))?;
    let mut cons = cons;
    let a = ask(&mut cons, &Req::Sources);
    ensure!(
        a == Ans::List(d.resolved.clone()),
        "sources {:?} with root {:?} and map URL {:?} are reported as {:?}, expected {:?}", c.sources, c.root, c.map_url, a, d.resolved
    );
    for s in &c.sources {
        let u = call(|| util::compute_source_url(c.root.as_deref(), s, c.map_url.as_deref()))
            .map_err(|e| format!("resolving {:?} under {:?} and {:?} panics: {}", s, c.root, c.map_url, e))?;
        let want = urlmodel::compute_source_url(c.root.as_deref(), s, c.map_url.as_deref());
        ensure!(u == want, "{:?} under root {:?} and map URL {:?} is {:?}, expected {:?}", s, c.root, c.map_url, u, want);
        o.class(kind_class(s));
    }
    let used = c.root.as_deref().map_or(false, |r| !r.is_empty()) || c.map_url.as_deref().map_or(false, |r| !r.is_empty());
    o.nontrivial_if(used && c.sources.iter().any(|s| urlmodel::kind_of(s) != Kind::Abs));
    Ok(())
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spelled {
    names: Names,
    queries: Vec<(u8, u16, String)>,
}

fn c16(c: &Spelled, o: &mut Obs) -> Result<(), String> {
    let n = &c.names;
    let dc = doc(n);
    // Mapping i (on generated line i) tells entry i from the others.
    let segs: Vec<Seg> = (0..n.sources.len() as u32)
        .map(|i| Seg { gl: i, gc: 0, orig: Some(Orig { src: i, line: 0, col: 0, name: None }) })
        .collect();
    let d = build_from(&dc, n.map_url.as_deref(), segs);
    let mut b = super::lookup::open(&d.text(), n.map_url.as_deref())?;
    let mut spellings: Vec<(String, Option<u32>)> = vec![];
    let absolute = n.map_url.as_deref().map_or(true, |m| m.is_empty() || urlmodel::kind_of(m) == Kind::Abs);
    if absolute {
        for r in &d.resolved {
            let first = d.resolved.iter().position(|x| x == r).map(|i| i as u32);
            spellings.push((r.clone(), first));
            o.class("reported name");
        }
    }
    for (how, k, other) in &c.queries {
        let s = match how % 4 {
            0 | 1 if !n.sources.is_empty() => n.sources[*k as usize % n.sources.len()].clone(),
            2 if !n.sources.is_empty() => format!("./{}", n.sources[*k as usize % n.sources.len()].trim_start_matches('/')),
            _ => other.clone(),
        };
        let s = if urlmodel::kind_of(&s) == Kind::Abs || !s.contains(':') { s } else { other.clone() };
        spellings.push((s.clone(), d.find(&s)));
    }
    // Twice: the second time answers may come from a cache.
    for round in 0..2 {
        for (s, want) in &spellings {
            let e = |what: &str, got: String| {
                format!("{:?} should denote entry {:?} of {:?} (root {:?}, map URL {:?}, round {}), but {} answers {}", s, want, d.resolved, n.root, n.map_url, round, what, got)
            };
            let a = ask_basic(&mut b, &Req::Content { src: s.clone(), panic: Some(false) });
            ensure!(a == Ans::Text(want.map(|i| format!("content {}", i))), "{}", e("the content request", format!("{:?}", a)));
            let a = ask_basic(&mut b, &Req::All { src: s.clone(), line: 1, col: Some(0) });
            let got = match &a {
                Ans::Recs(v) => v.iter().map(|r| r.gl).collect::<Vec<_>>(),
                _ => return Err(e("the all-positions lookup", format!("{:?}", a))),
            };
            ensure!(got == want.iter().cloned().collect::<Vec<_>>(), "{}", e("the all-positions lookup", format!("{:?}", a)));
            let a = ask_basic(&mut b, &Req::Rev { src: s.clone(), line: 1, col: 0, lub: None });
            let got = match &a {
                Ans::Found(f) => f.as_ref().map(|f| (f.gen.0 - 1) as u32),
                _ => return Err(e("the reverse lookup", format!("{:?}", a))),
            };
            ensure!(got == *want, "{}", e("the reverse lookup", format!("{:?}", a)));
            o.class(if want.is_some() { "denotes an entry" } else { "denotes nothing" });
            o.nontrivial_if(want.map_or(false, |i| d.sources[i as usize] != *s));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    root: String,
    path: String,
}

fn c18(c: &Pair, o: &mut Obs) -> Result<(), String> {
    let (r, p) = (c.root.as_str(), c.path.as_str());
    let got = call(|| util::join(r, p)).map_err(|e| format!("join({:?}, {:?}) panics: {}", r, p, e))?;
    let want = urlmodel::join(r, p);
    // A root's own query or fragment matters only to a path without a path; left out.
    // So is a backslash or a port under a scheme of the user's own: the path is
    // read by that scheme's rules then, but by those of http on its own.
    let bare = urlmodel::parse(r).query.is_some() || urlmodel::parse(r).frag.is_some() || urlmodel::own_rules(r) && p.contains('\\');
    if !bare {
        ensure!(got == want, "join({:?}, {:?}) is {:?}, expected {:?}", r, p, got, want);
    }
    let norm = call(|| util::compute_source_url(None, p, None)).map_err(|e| format!("normalising {:?} panics: {}", p, e))?;
    let wn = urlmodel::normalize(p);
    ensure!(norm == wn, "{:?} normalises to {:?}, expected {:?}", p, norm, wn);
    let again = call(|| util::compute_source_url(None, &norm, None)).map_err(|e| format!("normalising {:?} panics: {}", norm, e))?;
    ensure!(again == norm, "normalising {:?} gives {:?}, and once more {:?}", p, norm, again);
    if !bare {
        let once = call(|| util::compute_source_url(None, &got, None)).map_err(|e| format!("normalising {:?} panics: {}", got, e))?;
        ensure!(once == got, "join({:?}, {:?}) = {:?} is not normalised: {:?}", r, p, got, once);
        let via = call(|| util::join(r, &norm)).map_err(|e| format!("join({:?}, {:?}) panics: {}", r, norm, e))?;
        ensure!(via == got, "join({:?}, {:?}) is {:?}, but {:?} with the path normalised first", r, p, got, via);
    }

    let rel = call(|| util::relative(r.to_string(), p.to_string())).map_err(|e| format!("relative({:?}, {:?}) panics: {}", r, p, e))?;
    o.class(kind_class(r));
    if let Some(want) = urlmodel::relative(r, p) {
        ensure!(rel == want, "relative({:?}, {:?}) is {:?}, expected {:?}", r, p, rel, want);
        if !bare && !urlmodel::is_root_or_above(r, p) {
            let back = call(|| util::join(r, &rel)).map_err(|e| format!("join({:?}, {:?}) panics: {}", r, rel, e))?;
            // A reference of another kind or host stands for itself; joined it
            // resolves against the root like the target does.
            let same_kind = urlmodel::kind_of(r) == urlmodel::kind_of(p);
            if same_kind {
                ensure!(back == norm, "relative({:?}, {:?}) is {:?}, which joined back is {:?} instead of {:?}", r, p, rel, back, norm);
                o.class("round trip");
                o.nontrivial();
            } else {
                ensure!(rel == norm, "relative({:?}, {:?}) is {:?}, expected the target {:?}", r, p, rel, norm);
            }
        }
    } else {
        o.class("root above the target's base (undetermined)");
    }
    o.nontrivial_if(!r.is_empty() && urlmodel::kind_of(p) == Kind::PathRel);
    Ok(())
}

/// A long pair, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongPair {
    /// Prefixes, and numbers of segments: shared, and of either's own.
    start: (u8, u8),
    shared: u32,
    own: (u32, u32),
    /// Of 16 segments, so many are dot segments (in the target's own part).
    dots: u8,
    /// Segments are this long.
    width: u32,
    dirs: (bool, bool),
    seed: u32,
}

impl LongPair {
    fn pair(&self) -> Pair {
        let starts = ["", "/", "http://h.example/", "//h.example/", "webpack://ns/", "https://h.example:8080/"];
        let mut r = Rng(self.seed as u64);
        let seg = |r: &mut Rng, dots: u8| {
            if r.below(16) < dots as u32 {
                return if r.below(3) == 0 { ".".to_string() } else { "..".to_string() };
            }
            let c = (b'a' + r.below(6) as u8) as char;
            format!("{}{}", c.to_string().repeat(self.width as usize), r.below(3))
        };
        let shared: Vec<String> = (0..self.shared).map(|_| seg(&mut r, 0)).collect();
        let a: Vec<String> = (0..self.own.0).map(|_| seg(&mut r, 0)).collect();
        let b: Vec<String> = (0..self.own.1).map(|_| seg(&mut r, self.dots)).collect();
        let put = |start: u8, own: &[String], dir: bool| {
            let mut s = shared.iter().chain(own).cloned().collect::<Vec<_>>().join("/");
            if dir && !s.is_empty() {
                s.push('/');
            }
            format!("{}{}", starts[start as usize % starts.len()], s)
        };
        Pair { root: put(self.start.0, &a, self.dirs.0), path: put(self.start.1, &b, self.dirs.1) }
    }
}

fn long_pairs(_: bool) -> BoxedStrategy<LongPair> {
    let n = || prop_oneof![3 => 0u32..=4, 3 => 20u32..=80, 2 => 120u32..=300, 1 => 600u32..=1500, 1 => dict::number(1500)];
    (
        prop_oneof![2 => (0u8..6).prop_map(|k| (k, k)), 1 => (0u8..6, 0u8..6)],
        n(),
        (n(), n()),
        prop_oneof![2 => Just(0u8), 1 => 1u8..=8, 1 => 9u8..=16],
        prop_oneof![6 => 0u32..=3, 1 => 60u32..=300],
        any::<(bool, bool)>(),
        any::<u32>(),
    )
        .prop_map(|(start, shared, own, dots, width, dirs, seed)| LongPair { start, shared, own, dots, width, dirs, seed })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    let a: &'static [&'static str] = &[
        "references without empty path segments where file: URLs are involved, default ports in scheme-relative ones, or drive-letter-like segments outside file: URLs; opaque (data:) URLs as sources and targets, but not as roots or map URLs",
        "spellings outside the ASCII URL characters are percent-encoded as the URL standard says",
    ];
    vec![
        Property { id: "C15", assumptions: a, suites: vec![
            suite("sources", "0-6 sources of the four kinds with dot segments, queries, fragments and non-ASCII, under roots and map URLs of every kind; non-trivial: a root or map URL, and a source that is not absolute",
                120_000, 800_000, |_| names(false), c15)] },
        Property { id: "C16", assumptions: a, suites: vec![
            suite("names", "documents as for C15 whose reported names, own spellings, dotted spellings and other references are looked up three ways, twice; non-trivial: a spelling differing from the entry it denotes",
                60_000, 500_000, |_| (names(true), proptest::collection::vec((any::<u8>(), any::<u16>(), ref_of(true)), 0..4)).prop_map(|(names, queries)| spelled(names, queries)).boxed(), c16),
            suite("relative-map", "the same with map URLs of every kind, own and other spellings only; non-trivial: as above",
                30_000, 250_000, |_| (names(false), proptest::collection::vec((any::<u8>(), any::<u16>(), ref_of(true)), 0..4)).prop_map(|(names, queries)| spelled(names, queries)).boxed(), c16)] },
        Property { id: "C18", assumptions: a, suites: vec![
            suite("pairs", "pairs of references of the four kinds; non-trivial: joined back after relativising, or a relative path under a root",
                240_000, 1_500_000, |_| (prop_oneof![40 => url(false), 1 => (select(vec!["c:/", "webpack:/", "x-y:/"]), path(1)).prop_map(|(s, p)| format!("{}{}", s, below_slash(p)))], ref_of(true)).prop_map(|(root, path)| pair(root, path)).boxed(), c18),
            suite("near-pairs", "a root and a target that share their first segments and mostly their kind, with authorities that differ in any one part or none, and directories that differ in case; non-trivial: as above",
                180_000, 1_200_000, |_| near_pair(), c18),
            suite("long", "roots and targets of up to 3000 segments, or long ones, sharing up to 1500, with and without dot segments, expanded from a few numbers; non-trivial as above",
                800, 8_000, long_pairs, |c, o| c18(&c.pair(), o))] },
    ]
}
