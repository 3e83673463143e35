//! Collects the literals of the library's source as a dictionary for the
//! generators: numbers and texts the code compares with are where its behaviour
//! may change. The oracles do not see it.

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    let mut l: Vec<PathBuf> = d.filter_map(|e| e.ok().map(|e| e.path())).collect();
    l.sort();
    for p in l {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Num(u64),
    Text(String),
    Word(String),
    Sign(char),
}

fn unescape(s: &[char]) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < s.len() {
        if s[i] != '\\' {
            out.push(s[i]);
            i += 1;
            continue;
        }
        i += 1;
        match s.get(i) {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some('u') | Some('x') => {
                let hex: String = s[i + 1..].iter().filter(|c| **c != '{' && **c != '}').take_while(|c| c.is_ascii_hexdigit()).take(6).collect();
                let end = if s[i] == 'x' { i + 2 } else { s[i..].iter().position(|c| *c == '}').map_or(s.len(), |k| i + k) };
                let hex = if s[i] == 'x' { hex.chars().take(2).collect() } else { hex };
                if let Some(c) = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                    out.push(c);
                }
                i = end.min(s.len());
            }
            Some('\n') => {
                while s.get(i + 1).map_or(false, |c| c.is_whitespace()) {
                    i += 1;
                }
            }
            Some(c) => out.push(*c),
            None => {}
        }
        i += 1;
    }
    out
}

fn tokens(text: &str) -> Vec<Tok> {
    let s: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < s.len() {
        let c = s[i];
        let next = s.get(i + 1).copied().unwrap_or(' ');
        if c == '/' && next == '/' {
            while i < s.len() && s[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && next == '*' {
            let mut depth = 0;
            while i < s.len() {
                if s[i] == '/' && s.get(i + 1) == Some(&'*') {
                    depth += 1;
                    i += 2;
                } else if s[i] == '*' && s.get(i + 1) == Some(&'/') {
                    depth -= 1;
                    i += 2;
                    if depth == 0 {
                        break;
                    }
                } else {
                    i += 1;
                }
            }
        } else if (c == 'r' || c == 'b') && (next == '"' || next == '#' || (c == 'b' && (next == 'r' || next == '\''))) && {
            let mut j = i + 1;
            while j < s.len() && (s[j] == '#' || s[j] == 'r') {
                j += 1;
            }
            s.get(j) == Some(&'"')
        } {
            let raw = c == 'r' || next == 'r';
            let mut j = i + 1;
            let mut hashes = 0;
            while s[j] != '"' {
                hashes += (s[j] == '#') as usize;
                j += 1;
            }
            let start = j + 1;
            j = start;
            while j < s.len() {
                if !raw && s[j] == '\\' {
                    j += 2;
                    continue;
                }
                if s[j] == '"' && s[j + 1..].iter().take(hashes).filter(|c| **c == '#').count() == hashes {
                    break;
                }
                j += 1;
            }
            let j = j.min(s.len());
            let t = if raw { s[start..j].iter().collect() } else { unescape(&s[start..j]) };
            out.push(Tok::Text(t));
            i = j + 1 + hashes;
        } else if c == '"' {
            let start = i + 1;
            let mut j = start;
            while j < s.len() && s[j] != '"' {
                j += 1 + (s[j] == '\\') as usize;
            }
            let j = j.min(s.len());
            out.push(Tok::Text(unescape(&s[start..j])));
            i = j + 1;
        } else if c == '\'' {
            // A character, or a lifetime.
            if next == '\\' {
                let mut j = i + 3;
                while j < s.len() && s[j] != '\'' {
                    j += 1;
                }
                out.push(Tok::Text(unescape(&s[i + 1..j.min(s.len())])));
                i = j + 1;
            } else if s.get(i + 2) == Some(&'\'') {
                out.push(Tok::Text(next.to_string()));
                i += 3;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() {
            let start = i;
            while i < s.len() && word(s[i]) {
                i += 1;
            }
            let t: String = s[start..i].iter().filter(|c| **c != '_').collect();
            let (radix, digits) = match t.get(..2) {
                Some("0x") => (16, &t[2..]),
                Some("0b") => (2, &t[2..]),
                Some("0o") => (8, &t[2..]),
                _ => (10, &t[..]),
            };
            let cut = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
            if let Ok(n) = u64::from_str_radix(&digits[..cut], radix) {
                out.push(Tok::Num(n));
            }
        } else if word(c) {
            let start = i;
            while i < s.len() && word(s[i]) {
                i += 1;
            }
            out.push(Tok::Word(s[start..i].iter().collect()));
        } else {
            if !c.is_whitespace() {
                out.push(Tok::Sign(c));
            }
            i += 1;
        }
    }
    out
}

/// Leaves out what is compiled for tests only.
fn without_tests(t: Vec<Tok>) -> Vec<Tok> {
    let w = |s: &str| Tok::Word(s.into());
    let mark = [Tok::Sign('#'), Tok::Sign('['), w("cfg"), Tok::Sign('('), w("test"), Tok::Sign(')'), Tok::Sign(']')];
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with(&mark) {
            i += mark.len();
            let mut depth = 0;
            while i < t.len() {
                match t[i] {
                    Tok::Sign('{') => depth += 1,
                    Tok::Sign('}') => depth -= 1,
                    _ => {}
                }
                i += 1;
                if depth == 0 && matches!(t[i - 1], Tok::Sign('}') | Tok::Sign(';')) {
                    break;
                }
            }
        } else {
            out.push(t[i].clone());
            i += 1;
        }
    }
    out
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=Cargo.toml");
    let manifest = std::fs::read_to_string("Cargo.toml").unwrap_or_default();
    let repo = manifest
        .lines()
        .find(|l| l.starts_with("rusty-source-map"))
        .and_then(|l| l.split("path").nth(1))
        .and_then(|l| l.split('"').nth(1))
        .unwrap_or("/repo")
        .to_string();
    let src = Path::new(&repo).join("src");
    println!("cargo:rerun-if-changed={}", src.display());
    let mut fs = vec![];
    files(&src, &mut fs);
    let mut nums: BTreeSet<u64> = BTreeSet::new();
    let mut texts: BTreeSet<String> = BTreeSet::new();
    for f in fs {
        println!("cargo:rerun-if-changed={}", f.display());
        let t = without_tests(tokens(&std::fs::read_to_string(&f).unwrap_or_default()));
        // Tables (Base64's) would swamp the rest.
        let (mut ns, mut ts): (BTreeSet<u64>, BTreeSet<String>) = Default::default();
        for (i, k) in t.iter().enumerate() {
            match k {
                Tok::Num(n) => {
                    ns.insert(*n);
                    // 1 << 12, 1024 * 4
                    if let [Tok::Sign('<'), Tok::Sign('<'), Tok::Num(m), ..] = t[i + 1..] {
                        ns.insert(n.checked_shl(m as u32).unwrap_or(0));
                    }
                    if let [Tok::Sign('*'), Tok::Num(m), ..] = t[i + 1..] {
                        ns.insert(n.saturating_mul(m));
                    }
                }
                Tok::Text(s) if s.len() <= 60 => {
                    ts.insert(s.clone());
                }
                _ => {}
            }
        }
        let (table, list) = (ns.len() > 60, ts.len() > 60);
        nums.extend(ns.into_iter().filter(|n| !table || *n > 255));
        texts.extend(ts.into_iter().filter(|t| !list || t.len() > 3));
    }
    let nums: Vec<u32> = nums.into_iter().filter(|n| (3..i32::MAX as u64).contains(n)).map(|n| n as u32).collect();
    let texts: Vec<String> = texts.into_iter().filter(|s| !s.is_empty()).collect();
    let out = format!("pub const NUMBERS: &[u32] = &{:?};\npub const TEXTS: &[&str] = &{:?};\n", nums, texts);
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("dict.rs"), out).unwrap();
}
