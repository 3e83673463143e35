//! C27-C30: the collections and orders everything else is built on.

use crate::dict;
use crate::ensure;
use crate::gens::text;
use crate::large::{count, Rng};
use crate::runner::*;
use proptest::prelude::*;
use proptest::sample::select;
use rusty_source_map::array_set::ArraySet;
use rusty_source_map::binary_search::{search, GREATEST_LOWER_BOUND, LEAST_UPPER_BOUND};
use rusty_source_map::mapping::Mapping;
use rusty_source_map::mapping_list::MappingList;
use rusty_source_map::source_map::Position;
use rusty_source_map::util::{compare_by_generated_pos_inflated, strcmp};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

// ------------------------------------------------------------------ C27

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Find {
    list: Vec<i32>,
    needles: Vec<i32>,
    /// Comparison results: 0 differences, 1 signs, 2 to 5 signs times some number
    scale: u8,
}

fn want(list: &[i32], n: i32, lub: bool) -> i32 {
    let first = |v: i32| list.iter().position(|x| *x == v).map_or(-1, |i| i as i32);
    if list.contains(&n) {
        return first(n);
    }
    let near = if lub {
        list.iter().filter(|x| **x > n).min()
    } else {
        list.iter().filter(|x| **x < n).max()
    };
    near.map_or(-1, |v| first(*v))
}

fn c27(c: &Find, o: &mut Obs) -> Result<(), String> {
    let mut list = c.list.clone();
    list.sort();
    let cmp = |a: i32, b: i32| -> i32 {
        match c.scale {
            0 => a - b,
            1 => (a - b).signum(),
            2 => (a - b).signum() * 1_000_003,
            3 => (a - b).signum() * (1 << 16),
            4 => (a - b).signum() * i32::MAX,
            _ if a < b => i32::MIN,
            _ => (a - b).signum() << 30,
        }
    };
    // Records that differ in more than the compared key.
    let recs: Vec<(i32, usize)> = list.iter().cloned().zip(0..).collect();
    for n in &c.needles {
        let exact = list.contains(n);
        for b in [None, Some(GREATEST_LOWER_BOUND), Some(LEAST_UPPER_BOUND)] {
            let w = want(&list, *n, b == Some(LEAST_UPPER_BOUND));
            let g = call(|| search(*n, &list, |a, b| cmp(*a, *b), |a, b| cmp(*a, *b), b))
                .map_err(|e| format!("searching {} in {:?} (bias {:?}) panics: {}", n, list, b, e))?;
            ensure!(g == w, "searching {} in {:?} (bias {:?}) gives {}, expected {}", n, list, b, g, w);
            let needle = n.to_string();
            let g = call(|| {
                search(needle.as_str(), &recs, |a, b| cmp(a.parse().unwrap_or(0), b.0), |a, b| cmp(a.0, b.0), b)
            })
            .map_err(|e| format!("searching {} in {:?} (bias {:?}) panics: {}", n, recs, b, e))?;
            ensure!(g == w, "searching {:?} in records {:?} (bias {:?}) gives {}, expected {}", needle, recs, b, g, w);
            o.class_if(w < 0, "none");
            o.class_if(w >= 0 && !exact, "nearest");
            o.class_if(w > 0 && list.iter().filter(|x| **x == list[w as usize]).count() > 1, "repeated element");
        }
        o.class_if(exact, "exact");
        o.nontrivial_if(list.len() >= 2 && (!exact || list.iter().filter(|x| *x == n).count() > 1));
    }
    Ok(())
}

fn finds(deep: bool) -> BoxedStrategy<Find> {
    let big = if deep { 3000usize } else { 400 };
    let list = prop_oneof![
        8 => proptest::collection::vec(-6i32..12, 0..12),
        4 => proptest::collection::vec(-30i32..60, 0..60),
        1 => proptest::collection::vec(-1_000_000i32..1_000_000, 0..big),
        1 => proptest::collection::vec(0i32..3, 0..big),
        1 => proptest::collection::vec(prop_oneof![1 => dict::number(2_000_000).prop_map(|n| n as i32), 2 => -3i32..3], 0..40),
    ];
    let needle = prop_oneof![8 => -8i32..14, 2 => -32i32..62, 1 => -1_000_001i32..1_000_001, 1 => dict::number(2_000_000).prop_map(|n| n as i32)];
    (list, proptest::collection::vec(needle, 1..6), 0u8..6)
        .prop_map(|(list, mut needles, scale)| {
            // Some needles from the list itself and its neighbourhood.
            let n = list.len();
            if n > 0 {
                for (i, x) in needles.iter_mut().enumerate() {
                    if i % 2 == 1 {
                        let k = (x.unsigned_abs() as usize) % n;
                        *x = list[k] + (*x % 2);
                    }
                }
            }
            Find { list, needles, scale }
        })
        .boxed()
}

/// A long list, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongFind {
    n: u32,
    /// Differences between neighbours are at most this.
    step: u32,
    seed: u32,
    /// Needles: near the k-th element.
    near: Vec<(u32, i8)>,
    scale: u8,
}

impl LongFind {
    fn find(&self) -> Find {
        let mut r = Rng(self.seed as u64);
        let mut v = -(self.n as i32) / 2;
        let list: Vec<i32> = (0..self.n)
            .map(|_| {
                v += r.below(self.step + 1) as i32;
                v
            })
            .collect();
        let needles = self.near.iter().map(|(k, d)| list[*k as usize % list.len()] + *d as i32).collect();
        Find { list, needles, scale: self.scale }
    }
}

fn long_finds(_: bool) -> BoxedStrategy<LongFind> {
    (count(70_000), prop_oneof![1 => Just(0u32), 3 => 1u32..=3, 2 => 4u32..=1000], any::<u32>(), proptest::collection::vec((any::<u32>(), -3i8..=3), 4..12), 0u8..6)
        .prop_map(|(n, step, seed, near, scale)| LongFind { n, step, seed, near, scale })
        .boxed()
}

/// All ascending lists of at most eight elements over {0, 2, 4, 6}, each
/// element up to three times.
fn all_lists(i: u64) -> Find {
    let mut list = vec![];
    let mut k = i;
    for v in 0..4 {
        for _ in 0..k % 4 {
            list.push(v * 2);
        }
        k /= 4;
    }
    Find { list, needles: (-1..8).collect(), scale: (i % 6) as u8 }
}

// ------------------------------------------------------------------ C28

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SetOp {
    Add(String, bool),
    Clone,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SetC {
    start: Option<(Vec<String>, bool)>,
    ops: Vec<SetOp>,
}

fn same_set(s: &ArraySet, m: &[String], probes: &[String]) -> Result<(), String> {
    ensure!(s.to_vec() == m, "the list is {:?}, expected {:?}", s.to_vec(), m);
    let mut d: Vec<&String> = m.iter().collect();
    d.sort();
    d.dedup();
    ensure!(s.size() == d.len(), "the size is {}, but {} distinct strings were inserted: {:?}", s.size(), d.len(), m);
    for p in m.iter().chain(probes) {
        let i = m.iter().position(|x| x == p);
        ensure!(s.has(p.clone()) == i.is_some(), "membership of {:?} in {:?} is {}", p, m, s.has(p.clone()));
        ensure!(s.index_of(p.clone()) == i, "the index of {:?} in {:?} is {:?}", p, m, s.index_of(p.clone()));
    }
    for i in (-2..m.len() as i32 + 3).chain([i32::MIN, i32::MIN + 1, i32::MAX - 1, i32::MAX]) {
        let g = call(|| s.at(i)).map_err(|e| format!("position {} of {:?} panics: {}", i, m, e))?;
        let w = if i < 0 { None } else { m.get(i as usize).cloned() };
        ensure!(g == w, "position {} of {:?} holds {:?}", i, m, g);
    }
    Ok(())
}

fn c28(c: &SetC, o: &mut Obs) -> Result<(), String> {
    let mut m: Vec<String> = vec![];
    let add = |m: &mut Vec<String>, s: &String, dup: bool| {
        if dup || !m.contains(s) {
            m.push(s.clone());
        }
    };
    let probes: Vec<String> = ["", "a", "b", "z", "\u{0}"].iter().map(|s| s.to_string()).collect();
    let mut s = match &c.start {
        None => ArraySet::new(),
        Some((v, dup)) => {
            for x in v {
                add(&mut m, x, *dup);
            }
            ArraySet::from_array(v.clone(), *dup)
        }
    };
    same_set(&s, &m, &probes)?;
    let mut again = [0, 0];
    for op in &c.ops {
        match op {
            SetOp::Add(x, dup) => {
                if m.contains(x) {
                    again[*dup as usize] += 1;
                }
                add(&mut m, x, *dup);
                s.add(x.clone(), *dup);
            }
            SetOp::Clone => {
                // A copy is independent of what is added to it.
                let mut t = s.clone();
                t.add("\u{1}only in the copy".into(), false);
                same_set(&s, &m, &probes)?;
                let mut n = m.clone();
                add(&mut n, &"\u{1}only in the copy".to_string(), false);
                same_set(&t, &n, &probes)?;
            }
        }
        same_set(&s, &m, &probes)?;
    }
    o.class_if(again[0] > 0, "repetition refused");
    o.class_if(again[1] > 0, "repetition allowed");
    o.nontrivial_if(again[0] + again[1] > 0);
    Ok(())
}

fn setc(deep: bool) -> BoxedStrategy<SetC> {
    let s = || prop_oneof![6 => select(vec!["a", "b", "c", "A", "", "aa", "é", "e\u{301}"]).prop_map(String::from), 1 => text()];
    let op = prop_oneof![12 => (s(), any::<bool>()).prop_map(|(s, d)| SetOp::Add(s, d)), 1 => Just(SetOp::Clone)];
    (
        proptest::option::of((proptest::collection::vec(s(), 0..8), any::<bool>())),
        proptest::collection::vec(op, 0..if deep { 60 } else { 16 }),
    )
        .prop_map(|(start, ops)| SetC { start, ops })
        .boxed()
}

/// Many insertions, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongSet {
    start: u32,
    n: u32,
    /// Number of different strings, about.
    pool: u32,
    /// Of eight insertions, so many allow a repetition.
    dup: u8,
    start_dup: bool,
    seed: u32,
}

fn c28_long(c: &LongSet, o: &mut Obs) -> Result<(), String> {
    let mut r = Rng(c.seed as u64);
    let mut m: Vec<String> = vec![];
    let mut first: HashMap<String, usize> = HashMap::new();
    let mut again = false;
    let mut model = |s: &String, dup: bool| {
        let known = first.contains_key(s);
        again |= known;
        if dup || !known {
            first.entry(s.clone()).or_insert(m.len());
            m.push(s.clone());
        }
    };
    let word = |r: &mut Rng| format!("w{}", r.below(c.pool));
    let start: Vec<String> = (0..c.start).map(|_| word(&mut r)).collect();
    for s in &start {
        model(s, c.start_dup);
    }
    let mut set = ArraySet::from_array(start, c.start_dup);
    for _ in 0..c.n {
        let (s, dup) = (word(&mut r), r.below(8) < c.dup as u32);
        model(&s, dup);
        set.add(s, dup);
    }
    ensure!(set.size() == first.len(), "{} distinct strings of {:?} make size {}", first.len(), c, set.size());
    ensure!(set.to_vec() == m, "the list of {:?} differs: {} entries instead of {}", c, set.to_vec().len(), m.len());
    for (s, i) in &first {
        ensure!(set.has(s.clone()) && set.index_of(s.clone()) == Some(*i), "{:?} of {:?} has index {:?}, expected {}", s, c, set.index_of(s.clone()), i);
    }
    for i in 0..m.len() {
        let g = set.at(i as i32);
        ensure!(g.as_ref() == m.get(i), "position {} of {:?} holds {:?}, expected {:?}", i, c, g, m[i]);
    }
    for i in [m.len() as i32, m.len() as i32 + 1, -1, i32::MIN, i32::MAX, 65_536 + m.len() as i32] {
        ensure!(set.at(i).is_none(), "position {} of {:?} with {} entries holds {:?}", i, c, m.len(), set.at(i));
    }
    for k in c.pool..c.pool + 5 {
        let s = format!("w{}", k);
        ensure!(!set.has(s.clone()) && set.index_of(s.clone()).is_none(), "{:?} was never inserted in {:?}", s, c);
    }
    o.class_if(m.len() > 255, "over 255 entries");
    o.class_if(m.len() > 32_767, "over 32767 entries");
    o.nontrivial_if(again);
    Ok(())
}

fn long_sets(_: bool) -> BoxedStrategy<LongSet> {
    (prop_oneof![2 => Just(0u32), 1 => count(70_000)], count(70_000), prop_oneof![1 => 1u32..=300, 1 => 300u32..=3000, 2 => 60_000u32..=400_000], prop_oneof![1 => Just(0u8), 1 => 1u8..=8], any::<bool>(), any::<u32>())
        .prop_map(|(start, n, pool, dup, start_dup, seed)| LongSet { start, n, pool, dup, start_dup, seed })
        .boxed()
}

// ------------------------------------------------------------------ C29, C30

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct MapC {
    gl: i32,
    gc: i32,
    orig: Option<(String, i32, i32, Option<String>)>,
    last: Option<i32>,
}

impl MapC {
    fn lib(&self) -> Mapping {
        Mapping {
            generated: Position { line: self.gl, column: self.gc },
            original: self.orig.as_ref().map(|o| Position { line: o.1, column: o.2 }),
            source: self.orig.as_ref().map(|o| o.0.clone()),
            name: self.orig.as_ref().and_then(|o| o.3.clone()),
            last_generated_column: self.last,
        }
    }
}

type Fields = (i32, i32, Option<String>, Option<(i32, i32)>, Option<String>, Option<i32>);

fn fields(m: &Mapping) -> Fields {
    (
        m.generated.line,
        m.generated.column,
        m.source.clone(),
        m.original.as_ref().map(|p| (p.line, p.column)),
        m.name.clone(),
        m.last_generated_column,
    )
}

fn mapc(extreme: bool) -> BoxedStrategy<MapC> {
    let l = move || {
        if extreme {
            prop_oneof![16 => 1i32..4, 2 => Just(i32::MAX), 2 => 1i32..1000, 1 => dict::number(i32::MAX as u32).prop_map(|n| (n as i32).max(1))].boxed()
        } else {
            prop_oneof![16 => 1i32..4, 2 => 1i32..1000, 1 => dict::number(1 << 20).prop_map(|n| (n as i32).max(1))].boxed()
        }
    };
    let k = move || {
        if extreme {
            prop_oneof![16 => 0i32..4, 2 => Just(i32::MAX), 2 => 0i32..1000, 1 => dict::number(i32::MAX as u32).prop_map(|n| n as i32)].boxed()
        } else {
            prop_oneof![16 => 0i32..4, 2 => 0i32..1000, 1 => dict::number(1 << 20).prop_map(|n| n as i32)].boxed()
        }
    };
    let s = || prop_oneof![8 => select(vec!["a.js", "b.js", "", "B.js", "a", "é"]).prop_map(String::from), 1 => text()];
    let orig = (s(), l(), k(), proptest::option::of(s()));
    (l(), k(), proptest::option::weighted(0.8, orig), proptest::option::weighted(0.2, 0i32..5))
        .prop_map(|(gl, gc, orig, last)| MapC { gl, gc, orig, last })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ListOp {
    Add(MapC),
    /// A copy of an earlier mapping.
    Again(u16),
    Read,
    Walk,
}

fn c29(c: &Vec<ListOp>, o: &mut Obs) -> Result<(), String> {
    let mut l = MappingList::new();
    let mut added: Vec<MapC> = vec![];
    let (mut reads, mut disorder, mut after) = (0, false, false);
    let mut ops = c.clone();
    ops.push(ListOp::Walk);
    ops.push(ListOp::Read);
    ops.push(ListOp::Walk);
    let sorted = |v: &[Fields]| {
        let mut v = v.to_vec();
        v.sort();
        v
    };
    for (i, op) in ops.iter().enumerate() {
        let want = || -> Vec<Fields> { added.iter().map(|m| fields(&m.lib())).collect() };
        match op {
            ListOp::Add(_) | ListOp::Again(_) => {
                let m = match op {
                    ListOp::Add(m) => m.clone(),
                    ListOp::Again(k) if !added.is_empty() => added[*k as usize % added.len()].clone(),
                    _ => continue,
                };
                if added.last().map_or(false, |p| (p.gl, p.gc) > (m.gl, m.gc)) {
                    disorder = true;
                    after |= reads > 0;
                }
                call(|| l.add(m.lib())).map_err(|e| format!("adding {:?} after {:?} panics: {}", m, added, e))?;
                added.push(m);
            }
            ListOp::Read => {
                let got: Vec<Fields> = call(|| l.to_array()).map_err(|e| format!("reading {:?} panics: {}", added, e))?.iter().map(fields).collect();
                ensure!(sorted(&got) == sorted(&want()), "step {}: added were {:?}, read are {:?}", i, want(), got);
                for w in got.windows(2) {
                    ensure!((w[0].0, w[0].1) <= (w[1].0, w[1].1), "step {}: {:?} comes before {:?} in {:?}", i, w[0], w[1], got);
                }
                reads += 1;
            }
            ListOp::Walk => {
                let seen = RefCell::new(vec![]);
                call(|| l.unsorted_for_each(|m, i| seen.borrow_mut().push((i, fields(m))))).map_err(|e| format!("traversing panics: {}", e))?;
                let seen = seen.into_inner();
                let idx: Vec<usize> = seen.iter().map(|s| s.0).collect();
                ensure!(idx == (0..added.len()).collect::<Vec<_>>(), "step {}: {} mappings are traversed with indices {:?}", i, added.len(), idx);
                let got: Vec<Fields> = seen.into_iter().map(|s| s.1).collect();
                ensure!(sorted(&got) == sorted(&want()), "step {}: added were {:?}, traversed are {:?}", i, want(), got);
            }
        }
    }
    o.class_if(disorder, "added out of order");
    o.class_if(after, "out of order after a read");
    o.nontrivial_if(disorder && added.len() >= 3);
    Ok(())
}

fn lists(deep: bool) -> BoxedStrategy<Vec<ListOp>> {
    let op = prop_oneof![
        8 => mapc(true).prop_map(ListOp::Add),
        2 => any::<u16>().prop_map(ListOp::Again),
        2 => Just(ListOp::Read),
        1 => Just(ListOp::Walk),
    ];
    let n = if deep { 80usize } else { 30 };
    prop_oneof![
        3 => proptest::collection::vec(op.clone(), 0..8),
        2 => proptest::collection::vec(op.clone(), 0..n),
        // Mostly in order.
        2 => (proptest::collection::vec(mapc(true), 2..n), any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(mut v, a, b, r)| {
            v.sort_by_key(|m| (m.gl, m.gc));
            let n = v.len();
            v.swap(a as usize % n, b as usize % n);
            let mut ops: Vec<ListOp> = v.into_iter().map(ListOp::Add).collect();
            ops.insert(r as usize % (n + 1), ListOp::Read);
            ops
        }),
    ]
    .boxed()
}

/// A long sequence, given by a few numbers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LongList {
    n: u32,
    lines: u32,
    width: u32,
    /// 0 random, 1 sorted, 2 reversed, 3 sorted but one late, 4 sorted but for the last few, 5 blocks
    order: u8,
    at: u32,
    /// A read or a traversal after every so many additions.
    read: u32,
    walk: u32,
    seed: u32,
}

impl LongList {
    fn ops(&self) -> Vec<ListOp> {
        let mut r = Rng(self.seed as u64);
        let mut v: Vec<MapC> = (0..self.n)
            .map(|_| MapC {
                gl: 1 + r.below(self.lines) as i32,
                gc: r.below(self.width) as i32,
                orig: (r.below(4) > 0).then(|| (format!("s{}.js", r.below(40)), 1 + r.below(90) as i32, r.below(90) as i32, (r.below(2) == 0).then(|| format!("n{}", r.below(60))))),
                last: None,
            })
            .collect();
        let n = v.len();
        if (1..=5).contains(&self.order) {
            v.sort_by_key(|m| (m.gl, m.gc));
        }
        match self.order {
            2 => v.reverse(),
            3 => {
                let m = v.remove(self.at as usize % n);
                v.push(m);
            }
            4 => v.rotate_left((self.at as usize % 8).min(n - 1)),
            5 => {
                for b in v.chunks_mut(1 + self.at as usize % 90) {
                    b.reverse()
                }
            }
            _ => {}
        }
        let mut ops = vec![];
        for (i, m) in v.into_iter().enumerate() {
            ops.push(ListOp::Add(m));
            if self.read > 0 && (i as u32 + 1) % self.read == 0 {
                ops.push(ListOp::Read);
            }
            if self.walk > 0 && (i as u32 + 1) % self.walk == 0 {
                ops.push(ListOp::Walk);
            }
        }
        ops
    }
}

fn long_lists(_: bool) -> BoxedStrategy<LongList> {
    let every = || prop_oneof![2 => Just(0u32), 2 => 300u32..=5000, 1 => 30_000u32..=70_000];
    (count(70_000), prop_oneof![1u32..=3, 30u32..=3000], prop_oneof![1u32..=30, 100u32..=70_000], 0u8..=5, any::<u32>(), every(), every(), any::<u32>())
        .prop_map(|(n, lines, width, order, at, read, walk, seed)| LongList { n, lines, width, order, at, read, walk, seed })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Order {
    maps: Vec<MapC>,
    /// Field of a copy of mapping `.0` that is changed to that of mapping `.1`.
    mix: Vec<(u8, u8, u8)>,
}

fn strs(a: &Option<String>, b: &Option<String>) -> Ordering {
    match (a, b) {
        (None, None) => Ordering::Equal,
        (None, _) => Ordering::Greater,
        (_, None) => Ordering::Less,
        (Some(a), Some(b)) => a.chars().cmp(b.chars()),
    }
}

fn model(a: &MapC, b: &MapC) -> Ordering {
    let src = |m: &MapC| m.orig.as_ref().map(|o| o.0.clone());
    let pos = |m: &MapC| m.orig.as_ref().map(|o| (o.1, o.2));
    let name = |m: &MapC| m.orig.as_ref().and_then(|o| o.3.clone());
    (a.gl, a.gc)
        .cmp(&(b.gl, b.gc))
        .then_with(|| strs(&src(a), &src(b)))
        .then_with(|| pos(a).cmp(&pos(b)))
        .then_with(|| strs(&name(a), &name(b)))
}

fn ord(i: i32) -> Ordering {
    i.cmp(&0)
}

fn c30(c: &Order, o: &mut Obs) -> Result<(), String> {
    let mut v = c.maps.clone();
    for (a, b, f) in &c.mix {
        let n = v.len();
        let mut m = v[*a as usize % n].clone();
        let d = v[*b as usize % n].clone();
        // A distance of around a power of two, where narrower types wrap.
        let far = |x: i32, low: i32| ((x as i64) + (1i64 << (b % 31)) + (b / 31 % 3) as i64 - 1).clamp(low as i64, i32::MAX as i64) as i32;
        match f % 12 {
            0 => m.gl = d.gl,
            1 => m.gc = d.gc,
            2 => m.orig = d.orig,
            7 => m.gl = far(m.gl, 1),
            8 => m.gc = far(m.gc, 0),
            9 => {
                if let Some(x) = &mut m.orig {
                    x.1 = far(x.1, 1)
                }
            }
            10 => {
                if let Some(x) = &mut m.orig {
                    x.2 = far(x.2, 0)
                }
            }
            11 => {
                if let (Some(x), Some(y)) = (&mut m.orig, &d.orig) {
                    x.2 = y.2
                }
            }
            3 => {
                if let (Some(x), Some(y)) = (&mut m.orig, &d.orig) {
                    x.0 = y.0.clone()
                }
            }
            4 => {
                if let (Some(x), Some(y)) = (&mut m.orig, &d.orig) {
                    x.1 = y.1
                }
            }
            5 => {
                if let (Some(x), Some(y)) = (&mut m.orig, &d.orig) {
                    x.3 = y.3.clone()
                }
            }
            _ => m.last = d.last,
        }
        v.push(m);
    }
    let lib: Vec<Mapping> = v.iter().map(|m| m.lib()).collect();
    let cmp = |i: usize, j: usize| -> Result<Ordering, String> {
        call(|| compare_by_generated_pos_inflated(&lib[i], &lib[j]))
            .map(ord)
            .map_err(|e| format!("comparing {:?} and {:?} panics: {}", v[i], v[j], e))
    };
    let mut close = 0;
    for i in 0..v.len() {
        for j in 0..v.len() {
            let g = cmp(i, j)?;
            let w = model(&v[i], &v[j]);
            ensure!(g == w, "{:?} compares {:?} with {:?}, expected {:?}", v[i], g, v[j], w);
            if i != j && (v[i].gl, v[i].gc) == (v[j].gl, v[j].gc) {
                close += 1;
            }
            o.class_if(i != j && w == Ordering::Equal, "equal pair");
            for (a, b) in [
                (v[i].orig.as_ref().map(|x| x.0.clone()), v[j].orig.as_ref().map(|x| x.0.clone())),
                (v[i].orig.as_ref().map(|x| x.0.clone()), v[j].orig.as_ref().and_then(|x| x.3.clone())),
            ] {
                let g = ord(call(|| strcmp(a.clone(), b.clone()))?);
                ensure!(g == strs(&a, &b), "the string {:?} compares {:?} with {:?}", a, g, b);
            }
        }
    }
    // The order's laws follow from agreeing with the model; checked directly
    // all the same.
    for i in 0..v.len().min(6) {
        for j in 0..v.len().min(6) {
            ensure!(cmp(i, j)? == cmp(j, i)?.reverse(), "comparison of {:?} and {:?} is not antisymmetric", v[i], v[j]);
            for k in 0..v.len().min(6) {
                if cmp(i, j)? != Ordering::Greater && cmp(j, k)? != Ordering::Greater {
                    ensure!(cmp(i, k)? != Ordering::Greater, "comparison of {:?}, {:?}, {:?} is not transitive", v[i], v[j], v[k]);
                }
            }
        }
    }
    o.class_if(close > 0, "tied on the generated position");
    o.nontrivial_if(close > 0);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![
        Property { id: "C27", assumptions: &["comparators are consistent with one ascending order"], suites: vec![
            suite("lists", "ascending lists of 0-400 (thorough 3000) elements with repetitions, 1-5 needles in and around them, all biases, plain and record elements; non-trivial: two or more elements and a needle that is absent or repeated",
                600_000, 3_000_000, finds, c27),
            sweep("all", "every ascending list over {0,2,4,6} with up to three of each, every needle from -1 to 7, all biases (256 lists, exhaustive); non-trivial as above",
                256, 256, all_lists, c27),
            suite("large", "lists of up to 3000, now and then about 2^15 or 2^16 elements, expanded from a few numbers, 4-12 needles near their elements; non-trivial as above",
                1_200, 10_000, long_finds, |c, o| c27(&c.find(), o))] },
        Property { id: "C28", assumptions: &[], suites: vec![
            suite("insertions", "an optional initial list and 0-15 (thorough 60) insertions in either mode over few strings, all observers after each; non-trivial: some string inserted again",
                300_000, 2_000_000, setc, c28),
            suite("large", "up to 3000, now and then about 2^15 or 2^16 insertions in mixed modes, expanded from a few numbers, all observers at every position at the end; non-trivial as above",
                1_200, 10_000, long_sets, c28_long)] },
        Property { id: "C29", assumptions: &["mappings have positions an API user can state: line from 1, column from 0"], suites: vec![
            suite("interleavings", "0-30 (thorough 80) add / read / traverse steps; non-trivial: three or more mappings, some added out of order",
                150_000, 1_500_000, lists, c29),
            suite("large", "up to 3000, now and then about 2^15 or 2^16 mappings, random, sorted, reversed, nearly sorted or in blocks, read and traversed every so often, expanded from a few numbers; non-trivial as above",
                750, 6_000, long_lists, |c, o| c29(&c.ops(), o))] },
        Property { id: "C30", assumptions: &["a mapping has a source exactly if it has an original position, and a name only then"], suites: vec![
            suite("orders", "2-6 mappings and 0-4 copies differing in one field, all pairs and triples; non-trivial: two tied on their generated position",
                450_000, 3_000_000, |_| (proptest::collection::vec(mapc(true), 2..6), proptest::collection::vec((any::<u8>(), any::<u8>(), any::<u8>()), 0..5)).prop_map(|(maps, mix)| Order { maps, mix }).boxed(), c30)] },
    ]
}
