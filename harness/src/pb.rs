//! Independent protobuf wire format writer and zlib/deflate encoder. Nothing here uses the code
//! (or the protobuf and zlib libraries) under test, so the bytes are known by construction.

use crate::rng::Rng;

pub fn varint(mut v: u64, o: &mut Vec<u8>) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8)
}
pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
pub fn zz32(v: i32) -> u64 {
    ((v << 1) ^ (v >> 31)) as u32 as u64
}

/// How a repeated scalar list is written.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ListMode {
    Packed,
    Unpacked,
    Split,
}

/// Degrees of freedom the wire format leaves to a writer.
#[derive(Clone, Debug)]
pub struct Style {
    pub shuffle_fields: bool,
    pub unknown_fields: bool,
    pub explicit_defaults: bool,
    pub list: ListMode,
    pub mixed_lists: bool,
    /// Varints longer than necessary (still legal, never more than 5 bytes unless necessary)
    pub pad: bool,
    /// Scalar fields written twice; the last one counts.
    pub dup: bool,
}

impl Style {
    pub fn canonical() -> Style {
        Style {
            shuffle_fields: false,
            unknown_fields: false,
            explicit_defaults: false,
            list: ListMode::Packed,
            mixed_lists: false,
            pad: false,
            dup: false,
        }
    }
    pub fn random(r: &mut Rng) -> Style {
        if r.chance(1, 2) {
            return Style::canonical();
        }
        Style {
            shuffle_fields: r.chance(1, 3),
            unknown_fields: r.chance(1, 3),
            explicit_defaults: r.chance(1, 3),
            list: *r.pick(&[ListMode::Packed, ListMode::Packed, ListMode::Unpacked, ListMode::Split]),
            mixed_lists: r.chance(1, 6),
            pad: r.chance(1, 4),
            dup: r.chance(1, 4),
        }
    }
}

/// A message under construction: encoded fields with their numbers.
pub struct Msg {
    fields: Vec<(u32, Vec<u8>)>,
    /// Indices of fields that occur at most once and hold a varint.
    scalars: Vec<usize>,
}

impl Msg {
    pub fn new() -> Msg {
        Msg { fields: vec![], scalars: vec![] }
    }
    pub fn varint(&mut self, num: u32, v: u64) -> &mut Self {
        let mut o = vec![];
        varint((num as u64) << 3, &mut o);
        varint(v, &mut o);
        self.scalars.push(self.fields.len());
        self.fields.push((num, o));
        self
    }
    pub fn bytes(&mut self, num: u32, b: &[u8]) -> &mut Self {
        let mut o = Vec::with_capacity(b.len() + 8);
        varint((num as u64) << 3 | 2, &mut o);
        varint(b.len() as u64, &mut o);
        o.extend_from_slice(b);
        self.fields.push((num, o));
        self
    }
    /// Appends already encoded field bytes.
    pub fn raw(&mut self, num: u32, b: Vec<u8>) -> &mut Self {
        self.fields.push((num, b));
        self
    }
    /// Repeated scalar (already zigzag/two's complement mapped to u64).
    pub fn list(&mut self, num: u32, vals: &[u64], st: &Style, r: &mut Rng) -> &mut Self {
        if vals.is_empty() {
            if st.explicit_defaults && r.chance(1, 4) {
                self.bytes(num, &[]); // an empty packed list is legal
            }
            return self;
        }
        let put = |v: u64, o: &mut Vec<u8>, r: &mut Rng| {
            if st.pad && r.chance(1, 4) {
                varint_n(v, *r.pick(&[2usize, 3, 4, 5]), o)
            } else {
                varint(v, o)
            }
        };
        let mode = if st.mixed_lists {
            *r.pick(&[ListMode::Packed, ListMode::Unpacked, ListMode::Split])
        } else {
            st.list
        };
        match mode {
            ListMode::Packed => {
                let mut o = Vec::with_capacity(vals.len() * 2);
                for v in vals {
                    put(*v, &mut o, r);
                }
                self.bytes(num, &o);
            }
            ListMode::Unpacked => {
                let mut o = vec![];
                for v in vals {
                    varint((num as u64) << 3, &mut o);
                    put(*v, &mut o, r);
                }
                self.fields.push((num, o));
            }
            ListMode::Split => {
                let mut i = 0;
                while i < vals.len() {
                    let n = 1 + r.us((vals.len() - i).min(1000));
                    let mut o = vec![];
                    for v in &vals[i..i + n] {
                        put(*v, &mut o, r);
                    }
                    self.bytes(num, &o);
                    i += n;
                }
            }
        }
        self
    }
    pub fn finish(mut self, st: &Style, r: &mut Rng) -> Vec<u8> {
        if st.dup {
            let old = std::mem::take(&mut self.fields);
            for (i, (n, b)) in old.into_iter().enumerate() {
                if self.scalars.contains(&i) && r.chance(1, 3) {
                    let mut o = vec![];
                    varint((n as u64) << 3, &mut o);
                    varint(r.below(3), &mut o);
                    self.fields.push((n, o));
                }
                self.fields.push((n, b));
            }
        }
        if st.pad {
            for (_, b) in &mut self.fields {
                if r.chance(1, 2) {
                    if let Some(n) = padded(b, r) {
                        *b = n;
                    }
                }
            }
        }
        if st.shuffle_fields && self.fields.len() > 1 {
            // Any permutation that keeps the order of fields with the same number.
            let mut order: Vec<usize> = (0..self.fields.len()).collect();
            r.shuffle(&mut order);
            let nums: Vec<u32> = order.iter().map(|i| self.fields[*i].0).collect();
            let mut by_num: std::collections::HashMap<u32, std::collections::VecDeque<Vec<u8>>> = Default::default();
            for (n, b) in self.fields.drain(..) {
                by_num.entry(n).or_default().push_back(b);
            }
            for n in nums {
                let b = by_num.get_mut(&n).unwrap().pop_front().unwrap();
                self.fields.push((n, b));
            }
        }
        let mut o = vec![];
        for (_, b) in self.fields {
            if st.unknown_fields && r.chance(1, 3) {
                unknown_field(&mut o, r);
            }
            o.extend_from_slice(&b);
        }
        if st.unknown_fields && r.chance(1, 2) {
            unknown_field(&mut o, r);
        }
        o
    }
}

fn read_varint(b: &[u8], mut p: usize) -> Option<(u64, usize)> {
    let (mut v, mut s) = (0u64, 0);
    loop {
        let x = *b.get(p)?;
        p += 1;
        v |= ((x & 127) as u64) << s;
        s += 7;
        if x < 128 {
            return Some((v, p));
        }
        if s > 63 {
            return None;
        }
    }
}

/// Writes v in exactly n bytes, if it takes no more.
fn varint_n(mut v: u64, n: usize, o: &mut Vec<u8>) {
    let at = o.len();
    varint(v, o);
    if o.len() - at < n {
        o.truncate(at);
        for _ in 0..n - 1 {
            o.push(v as u8 | 0x80);
            v >>= 7;
        }
        o.push(v as u8);
    }
}

/// The first field of these bytes (tag, and value or length) with overlong varints.
fn padded(b: &[u8], r: &mut Rng) -> Option<Vec<u8>> {
    let (t, p) = read_varint(b, 0)?;
    let (v, e) = read_varint(b, p)?;
    let mut o = vec![];
    varint_n(t, *r.pick(&[1usize, 1, 2, 3, 5]), &mut o);
    match t & 7 {
        0 => varint_n(v, *r.pick(&[1usize, 2, 3, 4, 5]), &mut o),
        2 => varint_n(v, *r.pick(&[1usize, 2, 3, 4, 5]), &mut o),
        _ => return None,
    }
    o.extend_from_slice(&b[e..]);
    Some(o)
}

/// A field with a number no message of the format uses.
pub fn unknown_field(o: &mut Vec<u8>, r: &mut Rng) {
    let num = *r.pick(&[100u64, 536, 2047, 90000, (1 << 29) - 1]);
    match r.below(4) {
        0 => {
            varint(num << 3, o);
            varint(r.u64() >> r.below(64), o);
        }
        1 => {
            varint(num << 3 | 1, o);
            o.extend_from_slice(&r.u64().to_le_bytes());
        }
        2 => {
            let n = r.us(20);
            varint(num << 3 | 2, o);
            varint(n as u64, o);
            for _ in 0..n {
                o.push(r.u64() as u8);
            }
        }
        _ => {
            varint(num << 3 | 5, o);
            o.extend_from_slice(&(r.u64() as u32).to_le_bytes());
        }
    }
}

// ---------------------------------------------------------------------------------------------
// zlib

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for c in d.chunks(5000) {
        for x in c {
            a += *x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    b << 16 | a
}

struct Bits {
    o: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        self.acc |= (v as u64) << self.n;
        self.n += n;
        while self.n >= 8 {
            self.o.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    fn align(&mut self) {
        if self.n > 0 {
            let pad = 8 - self.n;
            self.put(0, pad);
        }
    }
    /// Huffman codes are written most significant bit first.
    fn code(&mut self, c: u32, n: u32) {
        self.put(c.reverse_bits() >> (32 - n), n);
    }
}

#[derive(Clone, Copy)]
enum Sym {
    Lit(u8),
    Match(u16, u16),
}

fn lz77(d: &[u8]) -> Vec<Sym> {
    let mut head = vec![usize::MAX; 1 << 15];
    let mut out = Vec::with_capacity(d.len() / 2);
    let mut i = 0;
    while i < d.len() {
        let mut hit = None;
        if i + 4 <= d.len() {
            let h = (u32::from_le_bytes(d[i..i + 4].try_into().unwrap()).wrapping_mul(0x9E37_79B1) >> 17) as usize;
            let p = head[h];
            head[h] = i;
            if p != usize::MAX && i - p <= 32768 {
                let max = (d.len() - i).min(258);
                let mut l = 0;
                while l < max && d[p + l] == d[i + l] {
                    l += 1;
                }
                if l >= 4 {
                    hit = Some((l, i - p));
                }
            }
        }
        match hit {
            Some((l, dist)) => {
                out.push(Sym::Match(l as u16, dist as u16));
                i += l;
            }
            None => {
                out.push(Sym::Lit(d[i]));
                i += 1;
            }
        }
    }
    out
}

const LBASE: [u16; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
const LEXT: [u32; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
const DBASE: [u32; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
const DEXT: [u32; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

fn lcode(l: u16) -> (u32, u32, u32) {
    let i = if l == 258 { 28 } else { LBASE[..28].iter().rposition(|b| *b <= l).unwrap() };
    (257 + i as u32, (l - LBASE[i]) as u32, LEXT[i])
}
fn dcode(d: u16) -> (u32, u32, u32) {
    let d = if d == 0 { 65536 } else { d as u32 };
    let i = DBASE.iter().rposition(|b| *b <= d).unwrap();
    (i as u32, d - DBASE[i], DEXT[i])
}

/// Huffman code lengths (limited to `max` bits) for the given frequencies.
fn lengths(freq: &[u32], max: u32) -> Vec<u32> {
    let mut f: Vec<u64> = freq.iter().map(|x| *x as u64).collect();
    loop {
        let used: Vec<usize> = (0..f.len()).filter(|i| f[*i] > 0).collect();
        let mut len = vec![0u32; f.len()];
        if used.len() == 1 {
            len[used[0]] = 1;
            return len;
        }
        // (weight, members)
        let mut heap: std::collections::BinaryHeap<std::cmp::Reverse<(u64, usize)>> = Default::default();
        let mut nodes: Vec<Vec<usize>> = vec![];
        for i in &used {
            heap.push(std::cmp::Reverse((f[*i], nodes.len())));
            nodes.push(vec![*i]);
        }
        while heap.len() > 1 {
            let a = heap.pop().unwrap().0;
            let b = heap.pop().unwrap().0;
            let mut m = std::mem::take(&mut nodes[a.1]);
            m.extend(std::mem::take(&mut nodes[b.1]));
            for s in &m {
                len[*s] += 1;
            }
            heap.push(std::cmp::Reverse((a.0 + b.0, nodes.len())));
            nodes.push(m);
        }
        if *len.iter().max().unwrap() <= max {
            return len;
        }
        for x in &mut f {
            if *x > 0 {
                *x = *x / 4 + 1;
            }
        }
    }
}

fn codes(len: &[u32]) -> Vec<u32> {
    let mut count = [0u32; 17];
    for l in len {
        if *l > 0 {
            count[*l as usize] += 1;
        }
    }
    let mut next = [0u32; 17];
    let mut c = 0;
    for b in 1..=16 {
        c = (c + count[b - 1]) << 1;
        next[b] = c;
    }
    len.iter()
        .map(|l| {
            if *l == 0 {
                0
            } else {
                next[*l as usize] += 1;
                next[*l as usize] - 1
            }
        })
        .collect()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Deflate {
    Stored,
    Fixed,
    Dynamic,
    /// Alternating block kinds with small blocks.
    Mixed,
}

pub fn zlib(d: &[u8], kind: Deflate, r: &mut Rng) -> Vec<u8> {
    let mut b = Bits { o: vec![], acc: 0, n: 0 };
    b.o.extend_from_slice(r.pick(&[[0x78u8, 0x01], [0x78, 0x9c], [0x78, 0xda], [0x78, 0x5e]]));
    match kind {
        Deflate::Stored => {
            let chunks: Vec<&[u8]> = if d.is_empty() { vec![d] } else { d.chunks(65535).collect() };
            let n = chunks.len();
            for (i, c) in chunks.into_iter().enumerate() {
                stored(&mut b, c, i + 1 == n);
            }
        }
        Deflate::Fixed | Deflate::Dynamic => {
            let syms = lz77(d);
            // blocks of at most 40000 symbols
            let chunks: Vec<&[Sym]> = if syms.is_empty() { vec![&syms] } else { syms.chunks(40000).collect() };
            let n = chunks.len();
            for (i, c) in chunks.into_iter().enumerate() {
                huff(&mut b, c, kind == Deflate::Dynamic, i + 1 == n);
            }
        }
        Deflate::Mixed => {
            let syms = lz77(d);
            let mut pos = 0; // position in d
            let mut i = 0;
            while i < syms.len() {
                let n = (1 + r.us(3000)).min(syms.len() - i);
                let part = &syms[i..i + n];
                let bytes: usize = part.iter().map(|s| if let Sym::Match(l, _) = s { *l as usize } else { 1 }).sum();
                match r.below(4) {
                    0 if bytes <= 65535 => stored(&mut b, &d[pos..pos + bytes], false),
                    1 => huff(&mut b, part, true, false),
                    2 => {
                        stored(&mut b, &[], false); // sync marker
                        huff(&mut b, part, false, false)
                    }
                    _ => huff(&mut b, part, false, false),
                }
                i += n;
                pos += bytes;
            }
            stored(&mut b, &[], true);
        }
    }
    b.align();
    let mut o = b.o;
    o.extend_from_slice(&adler32(d).to_be_bytes());
    o
}

fn stored(b: &mut Bits, c: &[u8], last: bool) {
    b.put(last as u32, 1);
    b.put(0, 2);
    b.align();
    b.o.extend_from_slice(&(c.len() as u16).to_le_bytes());
    b.o.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
    b.o.extend_from_slice(c);
}

fn huff(b: &mut Bits, syms: &[Sym], dynamic: bool, last: bool) {
    b.put(last as u32, 1);
    let (ll, dl): (Vec<u32>, Vec<u32>);
    if dynamic {
        b.put(2, 2);
        let mut lf = vec![0u32; 286];
        let mut df = vec![0u32; 30];
        for s in syms {
            match s {
                Sym::Lit(x) => lf[*x as usize] += 1,
                Sym::Match(l, d) => {
                    lf[lcode(*l).0 as usize] += 1;
                    df[dcode(*d).0 as usize] += 1;
                }
            }
        }
        lf[256] += 1;
        // at least two codes each, so that the code sets are complete
        if lf.iter().filter(|x| **x > 0).count() < 2 {
            lf[0] += 1;
        }
        for i in 0..2 {
            if df.iter().filter(|x| **x > 0).count() < 2 && df[i] == 0 {
                df[i] = 1;
            }
        }
        ll = lengths(&lf, 15);
        dl = lengths(&df, 15);
        b.put(286 - 257, 5);
        b.put(30 - 1, 5);
        let all: Vec<u32> = ll.iter().chain(dl.iter()).copied().collect();
        let mut cf = vec![0u32; 19];
        for l in &all {
            cf[*l as usize] += 1;
        }
        if cf.iter().filter(|x| **x > 0).count() < 2 {
            cf[18] += 1;
        }
        let cl = lengths(&cf, 7);
        let cc = codes(&cl);
        b.put(19 - 4, 4);
        for i in [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15] {
            b.put(cl[i], 3);
        }
        for l in &all {
            b.code(cc[*l as usize], cl[*l as usize]);
        }
    } else {
        b.put(1, 2);
        ll = (0..288).map(|i| match i {
            0..=143 => 8,
            144..=255 => 9,
            256..=279 => 7,
            _ => 8,
        }).collect();
        dl = vec![5; 30];
    }
    let (lc, dc) = (codes(&ll), codes(&dl));
    for s in syms {
        match s {
            Sym::Lit(x) => b.code(lc[*x as usize], ll[*x as usize]),
            Sym::Match(l, d) => {
                let (c, e, n) = lcode(*l);
                b.code(lc[c as usize], ll[c as usize]);
                b.put(e, n);
                let (c, e, n) = dcode(*d);
                b.code(dc[c as usize], dl[c as usize]);
                b.put(e, n);
            }
        }
    }
    b.code(lc[256], ll[256]);
}
