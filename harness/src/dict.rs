//! Generators biased by the literals of the library's source (see build.rs).

use proptest::prelude::*;
use proptest::sample::select;
use std::sync::OnceLock;

include!(concat!(env!("OUT_DIR"), "/dict.rs"));

/// A number of the source, or a small multiple of one, give or take two.
pub fn number(max: u32) -> BoxedStrategy<u32> {
    let of: Vec<u32> = NUMBERS.iter().copied().filter(|n| *n <= max.saturating_add(1)).collect();
    if of.is_empty() {
        return (0..=max.min(300)).boxed();
    }
    (select(of), prop_oneof![10 => Just(1i64), 2 => 2i64..=5], prop_oneof![2 => Just(0i64), 3 => -2i64..=2])
        .prop_map(move |(n, k, d)| {
            let v = n as i64 * k + d;
            if v > max as i64 { n.min(max) } else { v.max(0) as u32 }
        })
        .boxed()
}

/// A text of the source, alone or within another.
pub fn text() -> BoxedStrategy<String> {
    if TEXTS.is_empty() {
        return Just(String::new()).boxed();
    }
    (select(TEXTS.to_vec()), prop_oneof![4 => Just(("", "")), 1 => Just(("a", "")), 1 => Just(("", "a")), 1 => Just(("a", "b"))])
        .prop_map(|(t, (a, b))| format!("{}{}{}", a, t, b))
        .boxed()
}

/// Runs of characters that are themselves in any part of a reference.
fn plain_words() -> &'static Vec<String> {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let mut out: Vec<String> = vec!["a".into()];
        for t in TEXTS {
            let ok = |c: char| c.is_ascii_alphanumeric() || "._~@+-".contains(c);
            for w in t.split(|c| !ok(c)) {
                let w = w.trim_matches('.');
                if !w.is_empty() && w.len() <= 30 {
                    out.push(w.to_string());
                }
            }
            let mut cs = t.chars();
            if let (Some(c), None) = (cs.next(), cs.next()) {
                if "!$&()*+,;=@~-_".contains(c) {
                    out.push(format!("x{}y", c));
                }
            }
        }
        out.sort();
        out.dedup();
        out
    })
}

/// A path segment made of a text of the source.
pub fn segment() -> BoxedStrategy<String> {
    (select(plain_words().clone()), prop_oneof![3 => Just(("", "")), 1 => Just(("x.", "")), 1 => Just(("a", "")), 1 => Just(("", "b")), 1 => Just(("", ".js"))])
        .prop_map(|(t, (a, b))| format!("{}{}{}", a, t, b))
        .boxed()
}

/// A source's name with such a segment.
pub fn source() -> BoxedStrategy<String> {
    (segment(), 0u8..8, 0u32..3)
        .prop_map(|(s, how, k)| match how {
            0 | 1 => s,
            2 => format!("{}/a.js", s),
            3 => format!("dir/{}", s),
            4 => format!("/{}/a.js", s),
            5 => format!("a.js?{}", s),
            6 => format!("http://other.example/{}", s),
            _ => format!("{}/{}{}.js", s, s, k),
        })
        .boxed()
}
