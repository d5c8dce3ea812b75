//! Constants of the code under test, as hints for the workload.
//!
//! A threshold or a special value in the code is where its behaviour may change, and no
//! generator that does not know it is likely to draw it. The number and string literals in the
//! sources (whatever they are used for) therefore take part in the draw: as counts, sizes,
//! values and names. They only steer what is generated; no oracle looks at the sources.

use crate::rng::Rng;
use std::collections::BTreeSet;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Dict {
    /// Literals, products and shifts of literals; with their neighbours.
    pub nums: Vec<i64>,
    pub texts: Vec<String>,
    /// Those which the tree that the harness was written for did not have. They get more weight: a
    /// change is more likely to be wrong than what was there before.
    pub new_nums: Vec<i64>,
    pub new_texts: Vec<String>,
}

const OLD_NUMS: &[i64] = &[3, 4, 9, 32, 64, 100, 1024, 32768, 65536, 33554432];
const OLD_TEXTS: &[&str] = &["",
    "/mod.rs",
    "0.2",
    "1024",
    "Number of ways: {ways}",
    "OSMData",
    "OSMHeader",
    "OUT_DIR",
    "UTF-8 error in stringtable",
    "blob content",
    "blob header",
    "blob header is too big",
    "blob header is too big: {size} bytes",
    "blob header size could not be decoded",
    "blob message is too big",
    "blob message is too big: {size} bytes",
    "blob zlib data",
    "content too short for block data",
    "content too short for header",
    "io error",
    "io error: address in use",
    "io error: address not available",
    "io error: already exists",
    "io error: broken pipe",
    "io error: connection aborted",
    "io error: connection refused",
    "io error: connection reset",
    "io error: interrupted",
    "io error: invalid data",
    "io error: invalid input",
    "io error: not connected",
    "io error: not found",
    "io error: other",
    "io error: permission denied",
    "io error: timed out",
    "io error: unexpected EOF",
    "io error: would block",
    "io error: write zero",
    "negative blob data size",
    "no blob at this stream position",
    "protobuf error",
    "protobuf error at '{location}': {err}",
    "raw blob data",
    "rust-zlib",
    "stringtable index out of bounds",
    "stringtable index out of bounds: {index}",
    "tests/test.osm.pbf",
    "zlib",
    "zlib-ng"];

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut nums = BTreeSet::new();
        let mut texts = BTreeSet::new();
        if !cfg!(miri) {
            let dir = std::env::var("MON_SOURCES").unwrap_or("/repo/src".into());
            let mut files: Vec<_> = std::fs::read_dir(dir).into_iter().flatten().flatten().map(|e| e.path()).collect();
            files.sort();
            for f in files.iter().filter(|f| f.extension().is_some_and(|x| x == "rs")) {
                if let Ok(s) = std::fs::read_to_string(f) {
                    // Unit tests have many literals of their own.
                    scan(s.split("#[cfg(test)]").next().unwrap(), &mut nums, &mut texts);
                }
            }
        }
        nums.retain(|x| *x > 2);
        texts.retain(|t| t.len() <= 40);
        let new_nums = nums.iter().copied().filter(|x| !OLD_NUMS.contains(x)).collect();
        let new_texts = texts.iter().filter(|x| !OLD_TEXTS.contains(&x.as_str())).cloned().collect();
        Dict { nums: nums.into_iter().collect(), texts: texts.into_iter().collect(), new_nums, new_texts }
    })
}

fn scan(s: &str, nums: &mut BTreeSet<i64>, texts: &mut BTreeSet<String>) {
    for line in s.lines() {
        let l = line.trim_start();
        if l.starts_with("//") {
            continue;
        }
        let c: Vec<char> = l.chars().collect();
        let mut i = 0;
        // The last number, and the operator after it
        let mut last: Option<i64> = None;
        let mut op = ' ';
        while i < c.len() {
            match c[i] {
                '/' if c.get(i + 1) == Some(&'/') => break,
                '"' => {
                    let mut t = String::new();
                    i += 1;
                    while i < c.len() && c[i] != '"' {
                        if c[i] == '\\' {
                            i += 1;
                        }
                        t.extend(c.get(i));
                        i += 1;
                    }
                    texts.insert(t);
                    last = None;
                }
                d if d.is_ascii_digit() && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) => {
                    let mut t = String::new();
                    while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                        t.push(c[i]);
                        i += 1;
                    }
                    i -= 1;
                    if let Some(v) = number(&t) {
                        nums.insert(v);
                        let w = match (last, op) {
                            (Some(x), '*') => x.checked_mul(v),
                            (Some(x), '<') if v < 62 => x.checked_shl(v as u32),
                            (Some(x), '+') => x.checked_add(v),
                            _ => None,
                        };
                        nums.extend(w);
                        last = Some(w.unwrap_or(v));
                        op = ' ';
                    }
                }
                '*' | '+' => op = c[i],
                '<' if c.get(i + 1) == Some(&'<') => op = '<',
                ' ' | '<' => {}
                _ => last = None,
            }
            i += 1;
        }
    }
    // Types bound what fits.
    for (name, v) in [("u8", 255), ("i8", 127), ("u16", 65535), ("i16", 32767)] {
        if s.contains(&format!("as {name}")) || s.contains(&format!("{name}::")) {
            nums.insert(v);
        }
    }
}

fn number(t: &str) -> Option<i64> {
    let t: String = t.replace('_', "");
    let (t, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        _ => (&t[..], 10),
    };
    let t = ["usize", "isize", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"].iter().find_map(|x| t.strip_suffix(x)).unwrap_or(t);
    i64::from_str_radix(t, radix).ok()
}

/// One of the numbers or a neighbour of it, if it is at most `max`; with a chance of 1 in `den`.
pub fn num(r: &mut Rng, den: u64, max: i64) -> Option<i64> {
    let mut d = &dict().nums;
    if d.is_empty() || !r.chance(1, den) {
        return None;
    }
    if !dict().new_nums.is_empty() && r.chance(2, 3) {
        d = &dict().new_nums;
    }
    let x = *r.pick(d) as i128;
    // as it is, or multiplied
    let x = match r.below(8) {
        0 => 2 * x,
        _ => x,
    };
    let x = x + *r.pick(&[0, 0, 0, 1, 1, -1, 2]);
    (x <= max as i128).then_some(x as i64)
}

pub fn text(r: &mut Rng, den: u64) -> Option<&'static str> {
    let mut d = &dict().texts;
    if d.is_empty() || !r.chance(1, den) {
        return None;
    }
    if !dict().new_texts.is_empty() && r.chance(2, 3) {
        d = &dict().new_texts;
    }
    Some(r.pick(d))
}

/// Counts that are decisive if one of the new constants is a threshold, a period or a batch size.
/// Empty for the tree that the harness was written for.
pub fn lengths() -> &'static [usize] {
    static L: OnceLock<Vec<usize>> = OnceLock::new();
    L.get_or_init(|| {
        let mut v = vec![];
        for x in dict().new_nums.iter().copied().filter(|x| *x < 140_000).take(12) {
            for y in [x, x + 1, x - 1, 2 * x, 2 * x + 1, 3 * x - 1] {
                if y <= 140_000 && !v.contains(&(y as usize)) {
                    v.push(y as usize);
                }
            }
        }
        v.truncate(36);
        v
    })
}
