//! Reference codec for the `mappings` text of source maps v3, written from the
//! format's description.

const ALPHABET: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn digit(c: u8) -> Option<u32> {
    ALPHABET.iter().position(|&x| x == c).map(|i| i as u32)
}

/// The canonical text of a number: sign in the lowest bit, five bits a digit,
/// least significant first.
pub fn encode(v: i64, out: &mut String) {
    let mut n: u64 = (v.unsigned_abs() << 1) | (v < 0) as u64;
    loop {
        let low = (n % 32) as usize;
        n /= 32;
        let d = if n > 0 { low + 32 } else { low };
        out.push(ALPHABET[d] as char);
        if n == 0 {
            return;
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
pub enum Bad {
    Char,
    Truncated,
    TooBig,
    Negative,
    /// Two or three fields.
    Fields,
    /// More than five fields.
    Extra,
}

/// Decodes one number at `at`; returns it and the next position.
pub fn decode(s: &[u8], at: usize) -> Result<(i128, usize), Bad> {
    let mut i = at;
    let mut acc: u128 = 0;
    let mut shift = 0u32;
    loop {
        let c = *s.get(i).ok_or(Bad::Truncated)?;
        if c == b',' || c == b';' {
            return Err(Bad::Truncated);
        }
        let d = digit(c).ok_or(Bad::Char)?;
        i += 1;
        if shift > 100 {
            return Err(Bad::TooBig);
        }
        acc += ((d & 31) as u128) << shift;
        shift += 5;
        if d & 32 == 0 {
            break;
        }
    }
    let mag = (acc >> 1) as i128;
    Ok((if acc & 1 == 1 { -mag } else { mag }, i))
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Orig {
    pub src: u32,
    pub line: u32,
    pub col: u32,
    pub name: Option<u32>,
}

/// One segment, all numbers zero-based as in the text.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Seg {
    pub gl: u32,
    pub gc: u32,
    pub orig: Option<Orig>,
}

/// Strict decoder of a whole `mappings` text, in text order.
pub fn decode_mappings(text: &str) -> Result<Vec<Seg>, Bad> {
    let b = text.as_bytes();
    let mut out = vec![];
    let mut st = [0i128; 5]; // gen col, source, line, col, name
    let mut gl = 0u32;
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b';' => {
                gl += 1;
                st[0] = 0;
                i += 1;
            }
            b',' => i += 1,
            _ => {
                let mut n = 0;
                while i < b.len() && b[i] != b',' && b[i] != b';' {
                    let (v, j) = decode(b, i)?;
                    if n == 5 {
                        return Err(Bad::Extra);
                    }
                    st[n] += v;
                    if st[n] < 0 {
                        return Err(Bad::Negative);
                    }
                    if st[n] > u32::MAX as i128 {
                        return Err(Bad::TooBig);
                    }
                    n += 1;
                    i = j;
                }
                if n == 2 || n == 3 {
                    return Err(Bad::Fields);
                }
                out.push(Seg {
                    gl,
                    gc: st[0] as u32,
                    orig: if n >= 4 {
                        Some(Orig {
                            src: st[1] as u32,
                            line: st[2] as u32,
                            col: st[3] as u32,
                            name: if n == 5 { Some(st[4] as u32) } else { None },
                        })
                    } else {
                        None
                    },
                });
            }
        }
    }
    Ok(out)
}

/// Encodes segments whose generated lines are in ascending order (columns
/// within a line may come in any order).
pub fn encode_mappings(segs: &[Seg]) -> String {
    let mut s = String::new();
    let mut line = 0;
    let mut first = true;
    let mut p = [0i64; 5];
    for g in segs {
        while line < g.gl {
            s.push(';');
            line += 1;
            first = true;
            p[0] = 0;
        }
        if !first {
            s.push(',');
        }
        first = false;
        encode(g.gc as i64 - p[0], &mut s);
        p[0] = g.gc as i64;
        if let Some(o) = &g.orig {
            for (k, v) in [(1, o.src), (2, o.line), (3, o.col)] {
                encode(v as i64 - p[k], &mut s);
                p[k] = v as i64;
            }
            if let Some(n) = o.name {
                encode(n as i64 - p[4], &mut s);
                p[4] = n as i64;
            }
        }
    }
    s
}
