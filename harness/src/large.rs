//! Big cases from a handful of numbers. A case is expanded by a small
//! deterministic generator, so it shrinks and is stored as those numbers.
//! They reach what small cases cannot: numbers that no longer fit a narrower
//! type, tables and histories longer than any threshold or cache.

use crate::dict;
use crate::gens::*;
use crate::model::*;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

/// SplitMix64.
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        (self.next() % n.max(1) as u64) as u32
    }
}

/// A count: few, about 2^8, a few thousand, and if `cap` allows about 2^15 and
/// 2^16.
pub fn count(cap: u32) -> BoxedStrategy<u32> {
    let s = prop_oneof![
        8 => 1u32..=6,
        8 => 20u32..=130,
        8 => 250u32..=300,
        6 => 1000u32..=3000,
        4 => dict::number(3000),
    ]
    .prop_map(|n| n.max(1));
    if cap > 60_000 {
        prop_oneof![
            60 => s,
            1 => dict::number(cap).prop_map(|n| n.max(1)),
            1 => 32_760u32..=32_800,
            1 => 65_530u32..=65_600,
        ]
        .boxed()
    } else {
        s.prop_map(move |n| n.min(cap)).boxed()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeC {
    pub sources: u32,
    pub names: u32,
    pub segs: u32,
    pub lines: u32,
    /// Columns are below this, or advance by less than this (`running`).
    pub width: u32,
    pub olines: u32,
    pub owidth: u32,
    /// Like compiled code: columns and original positions advance.
    pub running: bool,
    /// 0 none, 1 all, 2 every third missing, 3 only the last, 4 all but the last, 5 half as many
    pub contents: u8,
    pub root: Option<String>,
    pub unsorted: bool,
    pub seed: u32,
}

impl LargeC {
    pub fn doc(&self) -> DocC {
        let mut r = Rng(self.seed as u64);
        let ns = self.sources;
        let sources: Vec<String> = (0..ns)
            .map(|i| match i % 5 {
                0 => format!("s{}.js", i),
                1 => format!("src/lib/s{}.js", i),
                2 => format!("./s{}.js", i),
                3 => format!("http://s.example/s{}.js", i),
                _ => format!("/abs/s{}.js", i),
            })
            .collect();
        let names: Vec<String> = (0..self.names).map(|i| format!("n{}", i)).collect();
        let contents = match self.contents {
            0 => None,
            k => Some(
                (0..if k == 5 { ns / 2 } else { ns })
                    .map(|i| match k {
                        2 if i % 3 == 1 => None,
                        3 if i + 1 != ns => None,
                        4 if i + 1 == ns => None,
                        // Some of them long.
                        _ => Some(format!("content {} {}", i, "é".repeat(match i % 61 { 7 => 60, 17 => 300, 59 => 5000, _ => 0 }))),
                    })
                    .collect(),
            ),
        };
        let per_line = (self.segs / self.lines.max(1)).max(1);
        let (mut gl, mut gc, mut ol, mut oc, mut src) = (0u32, 0u32, 0u32, 0u32, 0u32);
        let mut segs = vec![];
        for i in 0..self.segs {
            if self.running {
                if i > 0 && r.below(per_line) == 0 && gl + 1 < self.lines {
                    gl += 1 + (r.below(8) == 0) as u32;
                    gc = 0;
                } else {
                    gc = gc.saturating_add(r.below(self.width.min(2000))).min(MAXP);
                }
                match r.below(20) {
                    0 => {
                        src = r.below(ns);
                        ol = r.below(self.olines);
                        oc = 0;
                    }
                    1..=4 => {
                        ol = (ol + 1).min(MAXP);
                        oc = r.below(40);
                    }
                    5 => oc = oc.saturating_sub(r.below(30)),
                    _ => oc += r.below(10),
                }
            } else {
                gl = r.below(self.lines);
                gc = r.below(self.width);
                ol = r.below(self.olines);
                oc = r.below(self.owidth);
                // Every source has a mapping, if there are enough of them.
                src = if r.below(2) == 0 { i % ns.max(1) } else { r.below(ns) };
                if r.below(8) == 0 {
                    src = ns.saturating_sub(1 + r.below(16));
                }
            }
            let orig = (ns > 0 && r.below(8) != 0).then(|| OrigC {
                src,
                line: ol,
                col: oc,
                name: (self.names > 0 && r.below(2) == 0).then(|| match r.below(5) {
                    0 | 1 => i % self.names,
                    2 | 3 => r.below(self.names),
                    _ => self.names - 1 - r.below(self.names.min(16)),
                }),
            });
            segs.push(SegC { gl, gc, orig });
        }
        DocC { sources, names, root: self.root.clone(), file: None, contents, segs, unsorted: self.unsorted }
    }
}

pub fn span() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 1u32..=4,
        4 => 5u32..=40,
        1 => dict::number(1 << 30).prop_map(|n| n.max(1)),
        3 => 100u32..=3000,
        2 => 30_000u32..=70_000,
        1 => (1u32 << 20)..=(1 << 30),
    ]
    .boxed()
}

pub fn largec(cap: u32) -> BoxedStrategy<LargeC> {
    (
        (prop_oneof![2 => 1u32..=6, 2 => count(cap)], count(cap), count(cap)),
        (prop_oneof![8 => 1u32..=3, 12 => 4u32..=60, 8 => 200u32..=3000, 1 => 30_000u32..=70_000], span(), span(), span()),
        any::<bool>(),
        prop_oneof![2 => Just(0u8), 2 => Just(1u8), 1 => 2u8..=5],
        prop_oneof![3 => Just(None), 1 => select(vec!["/the/root", "root", "http://h.example/src"]).prop_map(|s| Some(s.to_string()))],
        proptest::bool::weighted(0.2),
        any::<u32>(),
        0u8..60,
    )
        .prop_map(move |((mut sources, mut names, mut segs), (lines, width, olines, owidth), running, contents, root, unsorted, seed, wide)| {
            // Now and then a table with more entries than 15 or 16 bits count,
            // most of which are used.
            if cap > 60_000 && wide < 3 {
                segs = [33_500, 70_000, 66_500][wide as usize];
                match seed % 3 {
                    0 => sources = segs - 500,
                    1 => names = segs - 500,
                    _ => (sources, names) = (segs - 400, segs - 500),
                }
            }
            ((sources, names, segs), (lines, width, olines, owidth), running, contents, root, unsorted, seed)
        })
        .prop_map(|((sources, names, segs), (lines, width, olines, owidth), running, contents, root, unsorted, seed)| LargeC {
            sources,
            names,
            segs,
            lines,
            width,
            olines,
            owidth,
            running,
            contents,
            root,
            unsorted,
            seed,
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SectsC {
    pub n: u32,
    /// Sections on one line, about.
    pub per_line: u32,
    /// Lines between lines with sections are below this; columns likewise.
    pub gap: u32,
    pub cgap: u32,
    /// Sources, names and mappings of a section are below these.
    pub sources: u32,
    pub segs: u32,
    /// How many different source names there are altogether.
    pub pool: u32,
    pub contents: u8,
    pub seed: u32,
}

impl SectsC {
    pub fn sects(&self) -> Vec<SectC> {
        let mut r = Rng(self.seed as u64);
        (0..self.n)
            .map(|i| {
                let dl = if i > 0 && r.below(self.per_line.max(1)) != 0 { 0 } else { (i > 0) as u32 + r.below(self.gap) };
                let dc = r.below(self.cgap);
                let ns = 1 + r.below(self.sources);
                let sources: Vec<String> = (0..ns).map(|_| format!("p/s{}.js", r.below(self.pool))).collect();
                let names: Vec<String> = (0..3).map(|k| format!("n{}_{}", i, k)).collect();
                let contents = match self.contents {
                    0 => None,
                    1 => Some((0..ns).map(|k| Some(format!("content {} {} {}", i, k, " ".repeat((i % 7 * 40) as usize)))).collect()),
                    2 => (i + 1 == self.n).then(|| (0..ns).map(|k| Some(format!("content {} {}", i, k))).collect()),
                    _ => (r.below(3) > 0).then(|| (0..ns).map(|k| (r.below(2) == 0).then(|| format!("content {} {}", i, k))).collect()),
                };
                let segs = (0..r.below(self.segs + 1))
                    .map(|_| SegC {
                        gl: if r.below(3) == 0 { r.below(3) } else { 0 },
                        gc: r.below(30),
                        orig: (r.below(8) != 0).then(|| OrigC { src: r.below(ns), line: r.below(9), col: r.below(9), name: (r.below(2) == 0).then(|| r.below(3)) }),
                    })
                    .collect();
                SectC { dl, dc, doc: DocC { sources, names, root: None, file: None, contents, segs, unsorted: false } }
            })
            .collect()
    }
}

pub fn sectsc(cap: u32) -> BoxedStrategy<SectsC> {
    (
        (count(cap), prop_oneof![2 => Just(1u32), 2 => 2u32..=5, 1 => 20u32..=400]),
        (1u32..=12, prop_oneof![2 => 1u32..=40, 1 => 1000u32..=100_000]),
        (1u32..=4, 0u32..=12),
        prop_oneof![1 => 1u32..=4, 2 => 10u32..=300, 1 => 1000u32..=5000],
        0u8..=3,
        any::<u32>(),
    )
        .prop_map(|((n, per_line), (gap, cgap), (sources, segs), pool, contents, seed)| SectsC { n, per_line, gap, cgap, sources, segs, pool, contents, seed })
        .boxed()
}
