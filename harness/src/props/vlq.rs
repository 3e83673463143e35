//! C01

use crate::dict;
use crate::ensure;
use crate::runner::*;
use crate::vlq;
use proptest::prelude::*;
use rusty_source_map::{base64, base64_vlq};

const STD: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

fn value() -> BoxedStrategy<i32> {
    prop_oneof![
        3 => -1100i32..1100,
        4 => (0u32..32, -3i64..=3, any::<bool>()).prop_map(|(k, d, neg)| {
            let v = (1i64 << k) + d;
            let v = if neg { -v } else { v };
            v.clamp(i32::MIN as i64, i32::MAX as i64) as i32
        }),
        2 => any::<i32>(),
        1 => (dict::number(i32::MAX as u32), any::<bool>()).prop_map(|(n, neg)| if neg { -(n as i32) } else { n as i32 }),
        1 => (0i32..4).prop_map(|d| i32::MIN + d),
        1 => (0i32..4).prop_map(|d| i32::MAX - d),
    ]
    .boxed()
}

/// Digits the shortest text of `v` has.
fn shortest(v: i32) -> usize {
    let n = ((v as i64).unsigned_abs() << 1) | (v < 0) as u64;
    let bits = 64 - n.leading_zeros() as usize;
    ((bits + 4) / 5).max(1)
}

fn one(v: i32) -> Result<String, String> {
    let t = call(|| base64_vlq::base64vlq_encode(v)).map_err(|e| format!("encoding {} panics: {}", v, e))?;
    ensure!(t.bytes().all(|b| vlq::digit(b).is_some()), "text {:?} of {} leaves the Base64 alphabet", t, v);
    match vlq::decode(t.as_bytes(), 0) {
        Ok((d, end)) => {
            ensure!(d == v as i128 && end == t.len(), "text {:?} of {} decodes to {} ({} of {} digits)", t, v, d, end, t.len())
        }
        Err(e) => return Err(format!("text {:?} of {} does not decode: {:?}", t, v, e)),
    }
    ensure!(t.len() == shortest(v), "text {:?} of {} has {} digits, {} suffice", t, v, t.len(), shortest(v));
    Ok(t)
}

fn numbers(c: &Vec<i32>, o: &mut Obs) -> Result<(), String> {
    o.nontrivial_if(c.iter().any(|v| v.unsigned_abs() > 255));
    o.class_if(c.iter().any(|v| v.unsigned_abs() >= 1 << 30), "30+ bits");
    o.class_if(c.contains(&i32::MIN), "i32::MIN");
    o.class_if(c.iter().any(|v| *v < 0), "negative");
    let mut all = String::new();
    for v in c {
        all.push_str(&one(*v)?);
    }
    let mut at = 0;
    for v in c {
        let (d, e) = vlq::decode(all.as_bytes(), at).map_err(|e| format!("concatenation {:?}: {:?}", all, e))?;
        ensure!(d == *v as i128, "concatenation {:?} of {:?} decodes to {} instead of {}", all, c, d, v);
        at = e;
    }
    ensure!(at == all.len(), "concatenation {:?} of {:?} has digits left over", all, c);
    Ok(())
}

const BLOCK: i64 = 1 << 16;

/// Block `i`, from zero outwards: 0, -1, 1, -2, ...
fn block(i: u64) -> i64 {
    let h = ((i + 1) / 2) as i64;
    if i % 2 == 1 {
        -h
    } else {
        h
    }
}

fn swept(b: &i64, o: &mut Obs) -> Result<(), String> {
    let lo = (b * BLOCK).max(i32::MIN as i64);
    let hi = ((b + 1) * BLOCK - 1).min(i32::MAX as i64);
    if lo > hi {
        return Ok(());
    }
    o.nontrivial();
    o.extra = (hi - lo) as u64;
    // Fast path: the expected text is built in place; `one` reports in words.
    let mut want = String::with_capacity(8);
    let r = call(|| {
        for v in lo..=hi {
            want.clear();
            vlq::encode(v, &mut want);
            if base64_vlq::base64vlq_encode(v as i32) != want {
                return Some(v as i32);
            }
        }
        None
    });
    match r {
        Ok(None) => Ok(()),
        Ok(Some(v)) => {
            one(v)?;
            Err(format!("text of {} is not the shortest one", v))
        }
        Err(_) => {
            for v in lo..=hi {
                one(v as i32)?;
            }
            Err(format!("encoding a number of {}..={} panics", lo, hi))
        }
    }
}

fn digit_block(b: &i64, o: &mut Obs) -> Result<(), String> {
    let lo = (b * BLOCK).max(i32::MIN as i64);
    let hi = ((b + 1) * BLOCK - 1).min(i32::MAX as i64);
    if lo > hi {
        return Ok(());
    }
    o.nontrivial();
    o.extra = (hi - lo) as u64;
    for v in lo..=hi {
        let got = call(|| base64::encode(v as i32)).map_err(|e| format!("digit {} panics: {}", v, e))?;
        let want = if (0..64).contains(&v) { STD.chars().nth(v as usize) } else { None };
        ensure!(got == want, "digit {} is {:?}, expected {:?}", v, got, want);
    }
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C01",
        assumptions: &["the reference decoder implements the v3 VLQ rules (sign bit lowest, 5 bits a digit, least significant group first)"],
        suites: vec![
            suite("numbers", "lists of 0-12 i32 biased to 5-bit group boundaries and the ends of the range; non-trivial: some number outside -255..=255 (which the tests cover)",
                360_000, 1_500_000, |_| proptest::collection::vec(value(), 0..12).boxed(), numbers),
            // 2 * 32768 + 1 blocks cover all of i32.
            sweep("sweep", "every i32 of blocks of 65536 from zero outwards (thorough: all 2^32); non-trivial: all",
                513, 65_537, block, swept),
            sweep("digits", "every i32 of blocks of 65536 from zero outwards as a single digit (thorough: all 2^32); non-trivial: all",
                257, 65_537, block, digit_block),
        ],
    }]
}
