//! C01, C17..C21, C24, C30: framing, positions, truncation, faults, termination.

use super::util::*;
use super::{Prop, BASE};
use crate::ctx::*;
use crate::dict;
use crate::ensure;
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::pb::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::io::{BufReader, Cursor, ErrorKind as IoKind, Read, Seek, SeekFrom};
use std::sync::Arc;

/// A file in which every blob carries a token that no other blob has.
pub struct Tokened {
    pub file: FileM,
    pub enc: Enc,
    /// None: the blob has no content
    pub tokens: Vec<Option<String>>,
    pub types: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Fill {
    Small,
    Mixed,
    Big,
}

pub fn tokened(r: &mut Rng, n: usize, fill: Fill) -> Tokened {
    let mut f = FileM::default();
    let mut tokens = vec![];
    let cfg = Cfg::sized(if n > 500 { Size::Tiny } else { Size::Small });
    for i in 0..n {
        let tok = format!("token-{i}-{:x}", r.u64());
        let ty: String = match r.below(10) {
            0 | 1 => "OSMHeader".into(),
            2 | 3 => gen::unknown_type(r),
            4 if fill != Fill::Small && r.chance(1, 4) => "T".repeat(*r.pick(&[126usize, 127, 128, 129, 255, 256, 4000, 8192, 16384, 60000])),
            5 if fill != Fill::Small => match dict::num(r, 12, 60000) {
                Some(n) => "U".repeat(n as usize),
                None => "OSMData".into(),
            },
            _ => "OSMData".into(),
        };
        let pad = match fill {
            Fill::Small => 0,
            Fill::Mixed => match r.below(12) {
                0 => *r.pick(&[4000usize, 4096, 8000, 8190, 8191, 8192, 8193, 8194, 10000, 16384]),
                1 => *r.pick(&[30000usize, 65535, 65536, 65537, 100_000, 131072]),
                2 => r.us(300),
                _ => 0,
            },
            Fill::Big => *r.pick(&[0usize, 0, 8192, 65536, 1_000_000, 3_000_000]),
        };
        let pad = if fill == Fill::Small { 0 } else { dict::num(r, 25, 150_000).map_or(pad, |x| x as usize) };
        let mut token = Some(tok.clone());
        // Incompressible padding, so that the stored size really is large.
        let padding = |r: &mut Rng| -> Vec<u8> { (0..pad).map(|_| b' ' + r.below(90) as u8).collect() };
        let payload = if ty == "OSMHeader" {
            let pd = String::from_utf8(padding(r)).unwrap();
            Payload::Header(HeaderM { program: Some(tok), source: Some(pd), ..Default::default() })
        } else if ty != "OSMData" && r.chance(1, 5) {
            token = None;
            Payload::Message(vec![])
        } else {
            let pd = padding(r);
            let mut b = BlockM { strings: vec![vec![], tok.into_bytes(), pd], ..Default::default() };
            b.groups = vec![GroupM {
                nodes: vec![NodeM { id: i as i64 + 1, lat: 5, lon: i as i64, tags: vec![(1, 1)], info: None }],
                ..Default::default()
            }];
            Payload::Data(Arc::new(b))
        };
        f.blobs.push(gen::blob_of(r, &cfg, &ty, payload));
        tokens.push(token);
    }
    let enc = encode(&f, r);
    let types = f.blobs.iter().map(|b| b.ty.clone()).collect();
    Tokened { file: f, enc, tokens, types }
}

/// The token found in a blob.
pub fn token_of(b: &Blob) -> Option<String> {
    if b.get_type() == BlobType::OsmHeader {
        return b.to_headerblock().ok().and_then(|h| h.writing_program().map(|s| s.to_string()));
    }
    b.to_primitiveblock().ok().and_then(|p| p.raw_stringtable().get(1).map(|s| String::from_utf8_lossy(s).into_owned()))
}

impl Tokened {
    /// Is this the blob stored at index i, at this offset (None: unknown)?
    pub fn is(&self, i: usize, b: &Blob, off: Option<Option<u64>>, full: bool) -> R {
        ensure!(i < self.types.len(), "blob {i} yielded, but only {} are stored", self.types.len());
        ensure!(ty_str(&b.get_type()) == ty_exp(&self.types[i]), "blob {i} has type {:?}, stored {:?}", b.get_type(), self.types[i]);
        ensure!(b.get_type().as_str() == self.types[i], "blob {i}: type string {:?}, stored {:?}", b.get_type().as_str(), self.types[i]);
        if let Some(o) = off {
            ensure!(b.offset().map(|x| x.0) == o, "blob {i} reports offset {:?}, stored at {o:?}", b.offset());
        }
        if full {
            let t = token_of(b);
            ensure!(t == self.tokens[i], "blob {i} has payload {t:?}, stored {:?}", self.tokens[i]);
        }
        Ok(())
    }
    /// Index of the blob that starts at this position.
    pub fn at(&self, pos: u64) -> Option<usize> {
        self.enc.lay.binary_search_by_key(&pos, |l| l.off).ok()
    }
    pub fn end(&self) -> u64 {
        self.enc.bytes.len() as u64
    }
}

// ---------------------------------------------------------------------------------------------
// C01

fn c01_iter(ctx: &mut Ctx, t: &Tokened, it: impl Iterator<Item = Result<Blob>>, base: Option<u64>, how: &str, r: &mut Rng) -> R {
    let n = t.types.len();
    let mut it = it;
    let mut i = 0;
    loop {
        match it.next() {
            None => break,
            Some(Err(e)) => return Err(format!("{how}: error after {i} of {n} blobs of a well-formed stream: {e:?}").into()),
            Some(Ok(b)) => {
                ensure!(i < n, "{how}: more than the {n} stored blobs");
                let full = n < 2000 || r.chance(1, 20);
                t.is(i, &b, Some(base.map(|x| x + t.enc.lay[i].off)), full).map_err(|e| Fail::from(format!("{how}: {}", e.msg)))?;
                if !matches!(b.get_type(), BlobType::OsmHeader | BlobType::OsmData) {
                    match b.decode() {
                        Ok(BlobDecode::Unknown(s)) if s == t.types[i] => {}
                        x => return Err(format!("{how}: unknown blob {i} ({:?}) decodes to {x:?}", t.types[i]).into()),
                    }
                    ctx.add("unknown blobs", 1);
                }
                i += 1;
            }
        }
    }
    ensure!(i == n, "{how}: iteration ended after {i} of {n} blobs");
    for _ in 0..2 {
        ensure!(it.next().is_none(), "{how}: iteration goes on after its end");
    }
    ctx.add("blobs compared", n as u64);
    ctx.add(&format!("iterations ({})", how.split(' ').next().unwrap()), 1);
    ctx.eval();
    Ok(())
}

fn c01(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    const DIRECTED: &[usize] = &[0, 1, 2, 63, 64, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 65535, 65536, 65537, 70000];
    let k = (case as usize).wrapping_sub(DIRECTED.len());
    let (n, fill) = if (case as usize) < DIRECTED.len() {
        (DIRECTED[case as usize], Fill::Small)
    } else if k < 22 {
        (7, Fill::Small)
    } else if k < 28 {
        (4, Fill::Small)
    } else {
        match r.below(20) {
            0 => (r.us(3), Fill::Big),
            1 => (dict::num(r, 2, 5000).map_or(20 + r.us(300), |x| x as usize), Fill::Small),
            2..=8 => (r.us(30), Fill::Mixed),
            _ => (r.us(12), Fill::Mixed),
        }
    };
    let mut t = tokened(r, n, fill);
    if k < 22 {
        // Headers and blobs of a power of two, one less and one more.
        for (i, b) in t.file.blobs.iter_mut().enumerate() {
            if i % 2 == 0 || k >= 16 {
                b.exact.1 = Some((1 << k) + [0, 1, 2, 0, 1, 2, 1][i] - 1);
            }
            if i % 2 == 1 && k < 16 {
                b.exact.0 = Some((1 << k) + [0, 0, 0, 1, 0, 2, 0][i] - 1);
            }
        }
        t.enc = encode(&t.file, r);
        ctx.add("blobs and headers of exact sizes", t.file.blobs.len() as u64);
    } else if k < 28 {
        // One blob of many megabytes among small ones
        let over = r.us(1 << 20);
        t.file.blobs[k % 3].exact.1 = Some([(1 << 22) + 1, (1 << 23) + 1, 1 << 24, (1 << 24) + 1 + over, 3 * (1 << 23) + over, 32_500_000 + over][k - 22]);
        t.enc = encode(&t.file, r);
        ctx.max("bytes of a blob", t.enc.lay.iter().map(|l| l.data as u64).max().unwrap());
    }
    let t = t;
    ctx.nontrivial(hash_bytes(&t.enc.bytes));
    ctx.sample(|| format!("{} bytes, {n} blobs, types {:?}", t.enc.bytes.len(), t.types.iter().take(8).map(|s| s.chars().take(20).collect::<String>()).collect::<Vec<_>>()));
    let big = t.enc.bytes.len() > 300_000;
    let rounds = if n > 5000 { 1 } else { 2 };
    for _ in 0..rounds {
        let mut ch = chunk_any(r, &t.enc.lay);
        if big {
            if let Chunk::Max(m) | Chunk::Random(m) = &ch {
                if *m < 100 {
                    ch = Chunk::Random(3000)
                }
            }
        }
        let how = format!("fragmented reader {ch:?}").chars().take(60).collect::<String>();
        let s = Src::bytes(&t.enc.bytes).chunk(ch.clone(), r.u64());
        c01_iter(ctx, &t, BlobReader::new(NoSeek(s.clone())), None, &how, r)?;
        match r.below(5) {
            0 => c01_iter(ctx, &t, BlobReader::new(&t.enc.bytes[..]), None, "slice", r)?,
            1 => c01_iter(ctx, &t, BlobReader::new(BufReader::with_capacity(*r.pick(&[1usize, 7, 100, 8192]), s)), None, "buffered reader", r)?,
            2 => c01_iter(ctx, &t, BlobReader::new_seekable(s).map_err(|e| format!("{e:?}"))?, Some(0), "seekable reader", r)?,
            3 => {
                // A stream in which the PBF data does not start at position 0.
                let pre = *r.pick(&[1u64, 3, 4, 100, 5000]);
                let mut v = vec![0xAAu8; pre as usize];
                v.extend_from_slice(&t.enc.bytes);
                let s = Src::vec(v).at(pre);
                c01_iter(ctx, &t, BlobReader::new_seekable(s).map_err(|e| format!("{e:?}"))?, Some(pre), "mid-stream seekable reader", r)?
            }
            _ => {
                // Two readers glued together.
                let cut = r.us(t.enc.bytes.len() + 1);
                let (a, b) = t.enc.bytes.split_at(cut);
                c01_iter(ctx, &t, BlobReader::new(a.chain(b)), None, "chained reader", r)?
            }
        }
    }
    if n <= 5000 || ctx.quick() {
        let p = ctx.file("c01.pbf", &t.enc.bytes)?;
        c01_iter(ctx, &t, BlobReader::from_path(&p).map_err(|e| format!("{e:?}"))?, Some(0), "from_path", r)?;
        if r.chance(1, 2) {
            c01_iter(ctx, &t, BlobReader::seekable_from_path(&p).map_err(|e| format!("{e:?}"))?, Some(0), "seekable_from_path", r)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C17

/// Content of a decoded blob, for comparison.
pub fn decoded(d: &Result<BlobDecode>) -> std::result::Result<String, String> {
    match d {
        Err(e) => Err(format!("{:?}", errc(e))),
        Ok(BlobDecode::OsmHeader(h)) => Ok(format!("header {:?} {:?}", ob_header(h), h.bbox())),
        Ok(BlobDecode::OsmData(p)) => {
            let mut h = 7u64;
            let mut n = 0u64;
            for s in p.raw_stringtable() {
                h = mix(h ^ hash_bytes(s));
            }
            p.for_each_element(|e| {
                n += 1;
                h = mix(h ^ el_hash(&ob(&e)))
            });
            Ok(format!("data {n} {h:x}"))
        }
        Ok(BlobDecode::Unknown(s)) => Ok(format!("unknown {s}")),
    }
}

/// Random damage to a byte sequence.
pub fn damage(r: &mut Rng, v: &mut Vec<u8>, lay: &[Lay]) -> &'static str {
    if v.is_empty() {
        v.extend((0..r.us(12)).map(|_| 0u8));
        return "zeros";
    }
    let l = if lay.is_empty() { Lay { off: 0, hdr: 0, data: 0 } } else { lay[r.us(lay.len())] };
    match r.below(12) {
        0 => {
            let n = r.us(v.len());
            v.truncate(n);
            "truncated"
        }
        1 => {
            let n = (1 + r.us(4)).min(v.len());
            let l = v.len() - n;
            v.truncate(l);
            "truncated by a few bytes"
        }
        2 => {
            for _ in 0..1 + r.us(5) {
                v.push(*r.pick(&[0u8, 1, 255, 13]));
            }
            "trailing bytes"
        }
        3 => {
            // header size
            let p = l.off as usize;
            if p + 4 <= v.len() {
                let x = *r.pick(&[0u32, 1, 2, 65535, 65536, 65537, u32::MAX, 1 << 31, l.hdr as u32 + 1, (l.hdr as u32).wrapping_sub(1)]);
                v[p..p + 4].copy_from_slice(&x.to_be_bytes());
            }
            "header size"
        }
        4 => {
            // inside a header
            if l.hdr > 0 {
                let p = l.off as usize + 4 + r.us(l.hdr as usize);
                if p < v.len() {
                    v[p] = if r.chance(1, 2) { r.u64() as u8 } else { v[p] ^ (1 << r.us(8)) };
                }
            }
            "header byte"
        }
        5 => {
            if l.data > 0 {
                let p = l.data_off() as usize + r.us((l.data as usize).min(12));
                if p < v.len() {
                    v[p] = if r.chance(1, 2) { r.u64() as u8 } else { v[p] ^ (1 << r.us(8)) };
                }
            }
            "start of payload"
        }
        6 => {
            let p = r.us(v.len());
            v.remove(p);
            "removed byte"
        }
        7 => {
            let p = r.us(v.len());
            v.insert(p, r.u64() as u8);
            "inserted byte"
        }
        8 => {
            for _ in 0..1 + r.us(20) {
                let p = r.us(v.len());
                v[p] = r.u64() as u8;
            }
            "random bytes"
        }
        9 => {
            let a = r.us(v.len());
            let b = (a + r.us(200)).min(v.len());
            let c: Vec<u8> = v[a..b].to_vec();
            let p = r.us(v.len());
            v.splice(p..p, c);
            "copied range"
        }
        10 => {
            let a = r.us(v.len());
            let b = (a + r.us(40)).min(v.len());
            v.drain(a..b);
            "removed range"
        }
        _ => {
            let p = r.us(v.len());
            v[p] ^= 1 << r.us(8);
            "flipped bit"
        }
    }
}

/// Replaces one blob by a crafted one; returns its description.
pub fn crafted_blob(r: &mut Rng, out: &mut Vec<u8>) -> &'static str {
    let st = Style::canonical();
    let ty = *r.pick(&["OSMData", "OSMData", "OSMHeader", "x"]);
    let mut hdr = Msg::new();
    let content = {
        let b = gen::block(r, &Cfg::sized(Size::Tiny));
        enc_block(&b, &st, r)
    };
    let good = enc_blob_msg(&content, Comp::Raw, RawSize::Absent, &st, r);
    let mut frame = |h: Vec<u8>, d: &[u8]| {
        out.extend_from_slice(&(h.len() as u32).to_be_bytes());
        out.extend_from_slice(&h);
        out.extend_from_slice(d);
    };
    match r.below(9) {
        0 => {
            let mut n = *r.pick(&[-1i64, -4, -5, -17, i32::MIN as i64, i64::MIN, -100]);
            if r.chance(1, 2) {
                // Back to its own beginning
                n = -(4 + 2 + ty.len() as i64 + 11);
            }
            hdr.bytes(1, ty.as_bytes()).varint(3, n as u64);
            frame(hdr.finish(&st, r), &good);
            "negative data size"
        }
        1 => {
            let n = *r.pick(&[i32::MAX as u64, 1 << 30, good.len() as u64 + 1, 1 << 32, 1 << 33]);
            hdr.bytes(1, ty.as_bytes()).varint(3, n);
            frame(hdr.finish(&st, r), &good);
            "oversized data size"
        }
        2 => {
            hdr.varint(3, good.len() as u64);
            frame(hdr.finish(&st, r), &good);
            "header without type"
        }
        3 => {
            hdr.bytes(1, ty.as_bytes());
            frame(hdr.finish(&st, r), &good);
            "header without data size"
        }
        4 => {
            hdr.bytes(1, b"\xff\xfe").varint(3, good.len() as u64);
            frame(hdr.finish(&st, r), &good);
            "type not UTF-8"
        }
        5 => {
            let mut z = compress(&content, Comp::Own(Deflate::Dynamic), r);
            let p = r.us(z.len());
            z[p] ^= 1 << r.us(8);
            let mut m = Msg::new();
            m.bytes(3, &z);
            let d = m.finish(&st, r);
            hdr.bytes(1, ty.as_bytes()).varint(3, d.len() as u64);
            frame(hdr.finish(&st, r), &d);
            "corrupt zlib"
        }
        6 => {
            let mut m = Msg::new();
            m.bytes(*r.pick(&[4u32, 5, 6, 7]), &content);
            let d = m.finish(&st, r);
            hdr.bytes(1, ty.as_bytes()).varint(3, d.len() as u64);
            frame(hdr.finish(&st, r), &d);
            "unsupported compression"
        }
        7 => {
            hdr.bytes(1, ty.as_bytes()).varint(3, 0);
            frame(hdr.finish(&st, r), &[]);
            "empty blob"
        }
        _ => {
            let mut c = content;
            damage(r, &mut c, &[]);
            let d = enc_blob_msg(&c, Comp::Own(Deflate::Fixed), RawSize::Absent, &st, r);
            hdr.bytes(1, ty.as_bytes()).varint(3, d.len() as u64);
            frame(hdr.finish(&st, r), &d);
            "damaged content"
        }
    }
}

/// Appends a blob so that this many bytes are reached, if there is room for it.
pub fn fill_to(v: &mut Vec<u8>, lay: &mut Vec<Lay>, total: usize, r: &mut Rng) {
    if v.len() + 70 > total {
        return;
    }
    let mut d = vec![];
    pad_to(&mut d, total - v.len() - 60);
    let mut h = enc_blob_header(*r.pick(&["OSMData", "pad"]), None, d.len() as i64, &Style::canonical(), r);
    pad_to(&mut h, 56);
    let l = put_framed(&h, &d, v);
    lay.push(l);
}

/// Arbitrary file bytes: intact, damaged or junk.
pub fn hostile(r: &mut Rng) -> (Vec<u8>, Vec<Lay>, String) {
    let cfg = if r.chance(1, 3) { Cfg::sized(Size::Small) } else { Cfg::sized(Size::Tiny) };
    let mut f = gen::file(r, &cfg);
    f.blobs.truncate(6);
    if r.chance(1, 5) {
        for b in f.blobs.iter_mut().filter(|b| b.comp != Comp::Raw) {
            b.raw_size = gen::wrong_size(r);
        }
    }
    let e = encode(&f, r);
    let mut v = (*e.bytes).clone();
    let mut lay = e.lay;
    let what = match r.below(10) {
        0 => "intact".into(),
        1 => {
            // a crafted blob at some blob boundary
            let i = r.us(lay.len() + 1);
            let p = if i < lay.len() { lay[i].off as usize } else { v.len() };
            let mut c = vec![];
            let w = crafted_blob(r, &mut c);
            v.splice(p..p, c);
            lay.truncate(i);
            w.to_string()
        }
        2 => {
            let i = r.us(lay.len() + 1);
            let p = if i < lay.len() { lay[i].off as usize } else { v.len() };
            v.truncate(p);
            lay.truncate(i);
            let w = crafted_blob(r, &mut v);
            format!("{w} at the end")
        }
        3 if r.chance(1, 3) => {
            v = (0..r.us(100)).map(|_| if r.chance(1, 2) { 0 } else { r.u64() as u8 }).collect();
            lay.clear();
            "junk".into()
        }
        _ => {
            let mut w = damage(r, &mut v, &lay).to_string();
            while r.chance(1, 4) {
                w = format!("{w}, {}", damage(r, &mut v, &lay));
            }
            w
        }
    };
    (v, lay, what)
}

pub fn c17(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let (mut v, mut lay, what) = if case < 24 {
        let t = tokened(r, [0usize, 1, 2, 5, 64, 300][case as usize % 6], Fill::Mixed);
        let mut v = (*t.enc.bytes).clone();
        v.extend(vec![0u8; [0usize, 1, 2, 3][case as usize / 6]]);
        (v, t.enc.lay, "intact plus 0 to 3 bytes".to_string())
    } else if r.chance(1, 6) {
        let n = 1 + r.us(8);
        let t = tokened(r, n, Fill::Mixed);
        ((*t.enc.bytes).clone(), t.enc.lay, "intact".to_string())
    } else {
        hostile(r)
    };
    if (what == "intact" && r.chance(1, 2)) || r.chance(1, 20) {
        // Whole pages
        let page = 4096;
        let total = (v.len() + 70).next_multiple_of(page) + *r.pick(&[0usize, 0, 0, 1, 4, page - 1]);
        fill_to(&mut v, &mut lay, total, r);
        if v.len() % page == 0 {
            ctx.add("files of whole pages", 1);
        }
    }
    ctx.add(&format!("inputs: {}", what.split([',', ' ']).next().unwrap()), 1);
    let p = ctx.file("c17.pbf", &v)?;
    let m = if r.chance(1, 2) {
        unsafe { Mmap::from_path(&p) }
    } else {
        let file = std::fs::File::open(&p).map_err(|e| broken(e.to_string()))?;
        // The map covers the whole file, wherever the file is positioned.
        let pos = if r.chance(1, 2) { 0 } else { r.below(v.len() as u64 + 2) };
        std::io::Seek::seek(&mut &file, std::io::SeekFrom::Start(pos)).map_err(|e| broken(e.to_string()))?;
        ctx.add(if pos > 0 { "mapped from a file positioned elsewhere" } else { "mapped from a file at its start" }, 1);
        unsafe { Mmap::from_file(&file) }
    }
    .map_err(|e| format!("mapping the file failed: {e:?}"))?;
    let mut mi = m.blob_iter();
    let mut si = BlobReader::new_seekable(Cursor::new(&v[..])).map_err(|e| format!("{e:?}"))?;
    let fail = |m: String| Fail::from(format!("input ({what}, {} bytes): {m}", v.len()));
    let mut offs = vec![];
    let mut n = 0usize;
    let mut agreed = true;
    loop {
        ensure!(n <= v.len() + 1, "more blobs than bytes");
        let s = si.next();
        let x = mi.next();
        match (s, x) {
            (None, None) => {
                ctx.add("ended cleanly together", 1);
                break;
            }
            (Some(Err(_)), Some(Err(_))) => {
                ctx.add("ended with an error together", 1);
                for _ in 0..3 {
                    if si.next().is_some() || mi.next().is_some() {
                        return Err(fail(format!("iteration goes on after the error at blob {n}")));
                    }
                }
                break;
            }
            (Some(Ok(a)), Some(Ok(b))) => {
                let (ta, tb) = (ty_str(&a.get_type()), ty_str(&b.get_type()));
                if ta != tb {
                    return Err(fail(format!("blob {n}: type {ta:?} in the stream, {tb:?} in the map")));
                }
                if a.offset() != Some(b.offset()) {
                    return Err(fail(format!("blob {n}: offset {:?} in the stream, {:?} in the map", a.offset(), b.offset())));
                }
                let (da, db) = (decoded(&a.decode()), decoded(&b.decode()));
                match (&da, &db) {
                    (Ok(x), Ok(y)) if x == y => {}
                    (Err(_), Err(_)) => ctx.add("decoding errors in both", 1),
                    _ => return Err(fail(format!("blob {n} decodes to {da:?} from the stream, {db:?} from the map"))),
                }
                offs.push((b.offset(), tb, db));
                ctx.add("blobs compared", 1);
                n += 1;
            }
            (Some(Err(e)), Some(Ok(b))) => {
                // The first damaged blob: the map notices when decoding it.
                if b.decode().is_ok() {
                    return Err(fail(format!("blob {n} is an error in the stream ({e:?}), but decodes from the map")));
                }
                agreed = false;
                ctx.add("damaged blob noticed by the map when decoding", 1);
                break;
            }
            (a, b) => {
                return Err(fail(format!(
                    "blob {n}: stream yields {:?}, map {:?}",
                    a.map(|x| x.map(|b| ty_str(&b.get_type())).map_err(|e| format!("{e:?}"))),
                    b.map(|x| x.map(|b| ty_str(&b.get_type())).map_err(|e| format!("{e:?}")))
                )))
            }
        }
    }
    if !agreed {
        for _ in 0..3 {
            if si.next().is_some() {
                return Err(fail("the stream goes on after an error".into()));
            }
        }
        let mut errs = 0;
        let mut k = 0;
        for x in &mut mi {
            k += 1;
            if x.is_err() {
                errs += 1;
            } else if errs > 0 {
                return Err(fail("the map yields a blob after an error".into()));
            }
            if k > v.len() {
                return Err(fail("the map does not end".into()));
            }
        }
        if errs > 1 {
            return Err(fail(format!("the map reports {errs} errors")));
        }
    }
    // Repositioning.
    for _ in 0..offs.len().min(20) {
        let k = r.us(offs.len());
        let (o, ty, d) = &offs[k];
        mi.seek(*o);
        match mi.next() {
            Some(Ok(b)) => {
                let db = decoded(&b.decode());
                if b.offset() != *o || ty_str(&b.get_type()) != *ty || db != *d {
                    return Err(fail(format!("after seeking to {o:?} the map yields blob at {:?} with {db:?}, before it was {d:?}", b.offset())));
                }
            }
            x => return Err(fail(format!("after seeking to {o:?} the map yields {:?}", x.map(|x| x.is_ok())))),
        }
        // ... and goes on with the next one.
        if k + 1 < offs.len() {
            match mi.next() {
                Some(Ok(b)) if b.offset() == offs[k + 1].0 => {}
                x => return Err(fail(format!("blob after the one at {o:?}: {:?}", x.map(|x| x.map(|b| b.offset()).map_err(|e| format!("{e:?}")))))),
            }
        }
        ctx.add("seeks in the map", 1);
    }
    for o in [v.len() as u64, v.len() as u64 + 1, v.len() as u64 + 5000, u64::MAX / 2, u64::MAX] {
        mi.seek(ByteOffset(o));
        if let Some(x) = mi.next() {
            return Err(fail(format!("seeking to {o} (end at {}) yields {:?}", v.len(), x.map(|b| b.offset()))));
        }
        ctx.add("seeks to or past the end", 1);
    }
    if let Some((o, ..)) = offs.first() {
        mi.seek(*o);
        ensure!(matches!(mi.next(), Some(Ok(b)) if b.offset() == *o), "the map does not resume after seeking back from the end");
    }
    let _ = lay;
    ctx.eval();
    ctx.nontrivial(hash_bytes(&v));
    ctx.sample(|| format!("{what}: {} bytes, {n} blobs agreed", v.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18: model-based histories of a seekable reader

fn c18_run<S: Read + Seek + Send>(ctx: &mut Ctx, r: &mut Rng, t: &Tokened, mut rd: BlobReader<S>, known: bool, how: &str) -> R {
    // The model: position of the cursor (always a blob boundary or at/after the end); whether the
    // reader has been told its offset.
    let mut pos = 0u64;
    let mut known = known;
    let end = t.end();
    let mut log: Vec<String> = vec![];
    let n_ops = 10 + r.us(40);
    let lay = &t.enc.lay;
    let mut hist = 0u64;
    let fail = |log: &Vec<String>, m: String| Fail::from(format!("{how}: {m}; history: {}", log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join(" ")));
    for _ in 0..n_ops {
        let op = r.below(10);
        let target = |r: &mut Rng| -> u64 {
            match r.below(10) {
                0 => end,
                1 => end + 1 + r.below(10_000),
                _ if !lay.is_empty() => lay[r.us(lay.len())].off,
                _ => end,
            }
        };
        hist = mix(hist ^ op);
        match op {
            0 | 1 => {
                log.push(format!("next@{pos}"));
                match (rd.next(), t.at(pos)) {
                    (None, None) => {}
                    (Some(Ok(b)), Some(i)) => {
                        let off = b.offset().map(|x| x.0);
                        if !(off == Some(pos) || (!known && off.is_none())) {
                            return Err(fail(&log, format!("blob at {pos} reports offset {off:?}")));
                        }
                        t.is(i, &b, None, true).map_err(|e| fail(&log, e.msg))?;
                        pos = lay[i].end();
                        ctx.add("blobs read", 1);
                    }
                    (x, i) => return Err(fail(&log, format!("next at {pos}: {:?}, stored blob {i:?}", x.map(|x| x.map(|b| b.offset()).map_err(|e| format!("{e:?}")))))),
                }
            }
            2 | 3 => {
                log.push(format!("skip@{pos}"));
                match (rd.next_header_skip_blob(), t.at(pos)) {
                    (None, None) => {}
                    (Some(Ok((h, off))), Some(i)) => {
                        let off = off.map(|x| x.0);
                        if !(off == Some(pos) || (!known && off.is_none())) {
                            return Err(fail(&log, format!("header at {pos} reports offset {off:?}")));
                        }
                        if ty_str(&h.blob_type()) != ty_exp(&t.types[i]) || h.get_blob_size() as u64 != lay[i].data {
                            return Err(fail(&log, format!("header at {pos}: {:?} size {}, stored {:?} size {}", h.blob_type(), h.get_blob_size(), t.types[i], lay[i].data)));
                        }
                        pos = lay[i].end();
                        ctx.add("headers skipped", 1);
                    }
                    (x, i) => return Err(fail(&log, format!("header at {pos}: {:?}, stored blob {i:?}", x.map(|x| x.is_ok())))),
                }
            }
            4 => {
                let p = target(r);
                log.push(format!("seek({p})"));
                rd.seek(ByteOffset(p)).map_err(|e| fail(&log, format!("seek failed: {e:?}")))?;
                pos = p;
                known = true;
                ctx.add("seeks", 1);
            }
            5 => {
                let p = target(r);
                let from = match r.below(3) {
                    0 => SeekFrom::Start(p),
                    1 => SeekFrom::Current(p as i64 - pos as i64),
                    _ => SeekFrom::End(p as i64 - end as i64),
                };
                log.push(format!("seek_raw({from:?})"));
                let got = rd.seek_raw(from).map_err(|e| fail(&log, format!("seek failed: {e:?}")))?;
                if got != p {
                    return Err(fail(&log, format!("seek_raw returns {got}, position is {p}")));
                }
                pos = p;
                known = true;
                ctx.add("raw seeks", 1);
            }
            6 | 7 => {
                let p = target(r);
                log.push(format!("blob_from_offset({p})"));
                match (rd.blob_from_offset(ByteOffset(p)), t.at(p)) {
                    (Ok(b), Some(i)) => {
                        if b.offset() != Some(ByteOffset(p)) {
                            return Err(fail(&log, format!("blob read from {p} reports offset {:?}", b.offset())));
                        }
                        t.is(i, &b, None, true).map_err(|e| fail(&log, e.msg))?;
                        pos = lay[i].end();
                        ctx.add("blobs read by offset", 1);
                    }
                    (Err(_), None) => {
                        // At or after the end: stays there.
                        pos = p;
                        ctx.add("reads past the end", 1);
                    }
                    (x, i) => return Err(fail(&log, format!("blob_from_offset({p}): {:?}, stored blob {i:?}", x.map(|b| b.offset()).map_err(|e| format!("{e:?}"))))),
                }
                known = true;
            }
            9 => {
                // Read from somewhere that is no blob: whatever comes of it, positioning the
                // reader afterwards works as if it had not happened.
                let p = match r.below(4) {
                    0 => r.below(end + 3),
                    1 => target(r) + r.below(6),
                    _ => target(r).saturating_sub(1 + r.below(12).min(6)),
                };
                log.push(format!("seek({p}), read there"));
                match r.below(3) {
                    0 => drop(rd.blob_from_offset(ByteOffset(p))),
                    m => {
                        rd.seek(ByteOffset(p)).map_err(|e| fail(&log, format!("seek failed: {e:?}")))?;
                        for _ in 0..1 + r.us(2) {
                            if m == 1 {
                                drop(rd.next())
                            } else {
                                drop(rd.next_header_skip_blob())
                            }
                        }
                    }
                }
                ctx.add("reads at positions where no blob starts", 1);
                // Often go back to the nearest blob.
                let near = lay.iter().find(|l| l.off >= p).map(|l| l.off);
                pos = match near {
                    Some(x) if r.chance(2, 3) => x,
                    _ => target(r),
                };
                known = true;
                match r.below(4) {
                    0 => {
                        log.push(format!("seek({pos})"));
                        rd.seek(ByteOffset(pos)).map_err(|e| fail(&log, format!("seek failed: {e:?}")))?;
                    }
                    1 => {
                        log.push(format!("seek_raw({pos})"));
                        let x = rd.seek_raw(SeekFrom::Start(pos)).map_err(|e| fail(&log, format!("seek failed: {e:?}")))?;
                        if x != pos {
                            return Err(fail(&log, format!("seek_raw returns {x}, position is {pos}")));
                        }
                    }
                    _ => {
                        log.push(format!("blob_from_offset({pos})"));
                        match (rd.blob_from_offset(ByteOffset(pos)), t.at(pos)) {
                            (Ok(b), Some(i)) => {
                                if b.offset() != Some(ByteOffset(pos)) {
                                    return Err(fail(&log, format!("blob read from {pos} reports offset {:?}", b.offset())));
                                }
                                t.is(i, &b, None, true).map_err(|e| fail(&log, e.msg))?;
                                pos = lay[i].end();
                            }
                            (Err(_), None) => {}
                            (x, i) => return Err(fail(&log, format!("blob_from_offset({pos}): {:?}, stored blob {i:?}", x.map(|b| b.offset()).map_err(|e| format!("{e:?}"))))),
                        }
                    }
                }
            }
            _ => {
                // A seek to a negative position fails and moves nothing.
                log.push("seek_raw(negative)".into());
                if rd.seek_raw(SeekFrom::Current(-(pos as i64) - 1 - r.below(100) as i64)).is_ok() {
                    return Err(fail(&log, "seek to a negative position succeeds".into()));
                }
                known = false;
                ctx.add("failed seeks", 1);
            }
        }
        ctx.add("operations", 1);
    }
    ctx.eval();
    ctx.nontrivial(mix(hist ^ hash_bytes(&t.enc.bytes)));
    ctx.sample(|| format!("{how}, {} blobs: {}", lay.len(), log.join(" ")));
    Ok(())
}

pub fn c18(ctx: &mut Ctx, _case: u64, r: &mut Rng) -> R {
    let n = match r.below(10) {
        0 => 0,
        1 => 100 + r.us(300),
        _ => 1 + r.us(9),
    };
    let fill = if r.chance(1, 4) { Fill::Small } else { Fill::Mixed };
    let t = tokened(r, n, fill);
    let err = |e: Error| Fail::from(format!("{e:?}"));
    for _ in 0..4 {
        match r.below(6) {
            0 => c18_run(ctx, r, &t, BlobReader::new_seekable(Cursor::new(&t.enc.bytes[..])).map_err(err)?, true, "cursor")?,
            1 => c18_run(ctx, r, &t, BlobReader::new(Cursor::new(&t.enc.bytes[..])), false, "plain cursor")?,
            2 => {
                let s = Src::bytes(&t.enc.bytes).chunk(Chunk::Random(7000), r.u64());
                c18_run(ctx, r, &t, BlobReader::new_seekable(s).map_err(err)?, true, "fragmenting source")?
            }
            3 => {
                let s = Src::bytes(&t.enc.bytes).chunk(chunk_any(r, &t.enc.lay), r.u64());
                let b = BufReader::with_capacity(*r.pick(&[1usize, 16, 300, 8192, 100_000]), s);
                c18_run(ctx, r, &t, BlobReader::new_seekable(b).map_err(err)?, true, "buffered source")?
            }
            4 => {
                let p = ctx.file("c18.pbf", &t.enc.bytes)?;
                c18_run(ctx, r, &t, BlobReader::from_path(&p).map_err(err)?, true, "from_path")?
            }
            _ => {
                let p = ctx.file("c18.pbf", &t.enc.bytes)?;
                c18_run(ctx, r, &t, BlobReader::seekable_from_path(&p).map_err(err)?, true, "seekable_from_path")?
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19

fn c19(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let n = if case < 8 { [0usize, 1, 2, 255, 256, 1000, 65536, 70000][case as usize] } else { r.us(25) };
    let fill = if n > 300 { Fill::Small } else if r.chance(1, 4) { Fill::Big } else { Fill::Mixed };
    let t = tokened(r, n, fill);
    let lay = &t.enc.lay;
    ctx.nontrivial(hash_bytes(&t.enc.bytes));
    ctx.sample(|| format!("{n} blobs, payload sizes {:?}", lay.iter().take(12).map(|l| l.data).collect::<Vec<_>>()));
    for buffered in [false, true] {
        let s = Src::bytes(&t.enc.bytes).chunk(if r.chance(1, 2) { Chunk::Full } else { Chunk::Random(5000) }, r.u64()).record();
        let st = s.stats();
        let cap = *r.pick(&[64usize, 512, 4096, 8192]);
        let mix_reads = r.below(3); // 0: never
        let mut read = vec![false; n];
        fn go<S: Read + Seek + Send>(ctx: &mut Ctx, r: &mut Rng, t: &Tokened, mut rd: BlobReader<S>, known: bool, mix_reads: u64, read: &mut [bool]) -> R {
            let lay = &t.enc.lay;
            let n = lay.len();
            let mut known = known;
            for i in 0..n {
                if mix_reads > 0 && r.chance(mix_reads, 4) {
                    match rd.next() {
                        Some(Ok(b)) => {
                            let off = b.offset().map(|o| o.0);
                            ensure!(off == Some(lay[i].off) || (!known && off.is_none()), "full read of blob {i} reports offset {off:?}, stored at {}", lay[i].off);
                            t.is(i, &b, None, n < 300)?;
                            read[i] = true;
                            ctx.add("full reads in between", 1);
                        }
                        x => return Err(format!("full read of blob {i}: {:?}", x.map(|x| x.map(|_| ()))).into()),
                    }
                    continue;
                }
                match rd.next_header_skip_blob() {
                    Some(Ok((h, off))) => {
                        let h = if r.chance(1, 4) { h.clone() } else { h };
                        let off = off.map(|o| o.0);
                        ensure!(off == Some(lay[i].off) || (!known && off.is_none()), "header {i} reports offset {off:?}, stored at {}", lay[i].off);
                        ensure!(ty_str(&h.blob_type()) == ty_exp(&t.types[i]), "header {i} has type {:?}, stored {:?}", h.blob_type(), t.types[i]);
                        ensure!(h.get_blob_size() as u64 == lay[i].data, "header {i}: payload size {}, stored {}", h.get_blob_size(), lay[i].data);
                        ctx.add("headers compared", 1);
                        known = true; // skipping seeks, which tells the position
                    }
                    Some(Err(e)) => return Err(format!("header {i}: {e:?}").into()),
                    None => return Err(format!("header iteration ended after {i} of {n}").into()),
                }
            }
            for _ in 0..2 {
                ensure!(rd.next_header_skip_blob().is_none(), "header iteration goes on after the end");
            }
            Ok(())
        }
        let known = r.chance(3, 4);
        let res = match (buffered, known) {
            (false, true) => go(ctx, r, &t, BlobReader::new_seekable(s).map_err(|e| format!("{e:?}"))?, true, mix_reads, &mut read),
            (false, false) => go(ctx, r, &t, BlobReader::new(s), false, mix_reads, &mut read),
            (true, true) => go(ctx, r, &t, BlobReader::new_seekable(BufReader::with_capacity(cap, s)).map_err(|e| format!("{e:?}"))?, true, mix_reads, &mut read),
            (true, false) => go(ctx, r, &t, BlobReader::new(BufReader::with_capacity(cap, s)), false, mix_reads, &mut read),
        };
        res.map_err(|e| Fail::from(format!("buffered {buffered}: {}", e.msg)))?;
        // What was requested from the source?
        let slack = if buffered { cap as u64 } else { 0 };
        let st = st.lock().unwrap();
        let mut ranges = st.touched.clone();
        ranges.sort();
        let mut j = 0;
        for i in 0..n {
            if read[i] {
                continue;
            }
            // Bytes that no buffering of this capacity explains.
            let (a, b) = (lay[i].data_off() + slack, lay[i].end());
            if a >= b {
                continue;
            }
            ctx.add("skipped payloads watched", 1);
            ctx.add("payload bytes watched", b - a);
            while j < ranges.len() && ranges[j].1 <= a {
                j += 1;
            }
            if let Some((x, y)) = ranges[j.min(ranges.len())..].iter().find(|(x, y)| *x < b && *y > a) {
                return Err(format!("payload of skipped blob {i} (bytes {a}..{b}{}) was read: source delivered {x}..{y}", if buffered { format!(", beyond the buffer of {cap}") } else { String::new() }).into());
            }
        }
        ctx.eval();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

/// Expected hashes of the elements of each blob (empty for those that are not data).
pub fn hashes(f: &FileM) -> Vec<Vec<u64>> {
    f.blobs.iter().map(|b| b.block().map_or(vec![], |b| b.exp().iter().flatten().flatten().map(el_hash).collect())).collect()
}

/// Single-kind groups only, so that the order of all elements is defined.
pub fn small_file(r: &mut Rng) -> FileM {
    let cfg = Cfg::sized(Size::Tiny);
    let mut f = gen::file(r, &cfg);
    f.blobs.truncate(5);
    if r.chance(1, 2) {
        let b = gen::block(r, &cfg);
        f.blobs.push(gen::data_blob(r, &cfg, b));
    }
    f
}

/// Type, offset and content of the blobs a stream yields, then the number of errors; stops when
/// the reader keeps going.
fn drain(ctx: &mut Ctx, it: &mut dyn Iterator<Item = Result<Blob>>, n: usize, want: &[(String, std::result::Result<String, String>)], lay: &[Lay], what: &str, offsets: bool) -> R<usize> {
    let mut i = 0;
    loop {
        match it.next() {
            None => break,
            Some(Ok(b)) => {
                ensure!(i < n, "{what}: a blob is yielded after the {n} complete ones ({:?} at {:?})", b.get_type(), b.offset());
                let got = (ty_str(&b.get_type()), decoded(&b.decode()));
                ensure!(got == want[i], "{what}: blob {i} is {got:?}, stored {:?}", want[i]);
                ensure!(!offsets || b.offset() == Some(ByteOffset(lay[i].off)), "{what}: blob {i} reports offset {:?}, stored at {}", b.offset(), lay[i].off);
                i += 1;
            }
            Some(Err(_)) => {
                ensure!(i == n, "{what}: error after {i} blobs, but {n} are complete");
                for _ in 0..3 {
                    ensure!(it.next().is_none(), "{what}: the iterator goes on after its error");
                }
                ctx.add("reported truncations", 1);
                return Ok(1);
            }
        }
    }
    ensure!(i == n, "{what}: ended after {i} blobs, but {n} are complete");
    Ok(0)
}

fn c20(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let large = case % 10 == 9;
    let f = if large {
        let mut c = Cfg::sized(Size::Small);
        c.style = false;
        let mut f = gen::file(r, &c);
        if r.chance(1, 3) {
            let n = 20_000 + r.us(60_000);
            f.blobs.push(gen::blob_of(r, &c, "big", Payload::Content((0..n).map(|i| (i * 7) as u8).collect())));
            let b = gen::block(r, &Cfg::sized(Size::Medium));
            f.blobs.push(gen::data_blob(r, &c, b));
        }
        f
    } else {
        small_file(r)
    };
    let e = encode(&f, r);
    let lay = &e.lay;
    let full: Vec<(String, std::result::Result<String, String>)> =
        BlobReader::new(&e.bytes[..]).map(|b| { let b = b.map_err(|x| format!("intact file: {x:?}"))?; Ok((ty_str(&b.get_type()), decoded(&b.decode()))) }).collect::<R<_>>()?;
    ensure!(full.len() == f.blobs.len(), "intact file yields {} of {} blobs", full.len(), f.blobs.len());
    let hs = hashes(&f);
    let len = e.bytes.len();
    let cuts: Vec<usize> = if len <= 1500 {
        ctx.add("files cut at every position", 1);
        (0..=len).collect()
    } else {
        let mut v: Vec<usize> = (0..60).map(|_| r.us(len + 1)).collect();
        for l in lay {
            for d in [0i64, 1, 2, 3, 4, 5] {
                v.push((l.off as i64 + d) as usize);
                v.push((l.data_off() as i64 + d - 2).max(0) as usize);
                v.push((l.end() as i64 - d).max(0) as usize);
            }
        }
        v.retain(|c| *c <= len);
        v.sort();
        v.dedup();
        while v.len() > 220 {
            let i = r.us(v.len());
            v.swap_remove(i);
        }
        v
    };
    let frag = r.chance(1, 2);
    for cut in cuts {
        let data = &e.bytes[..cut];
        // complete blobs before the cut
        let n = lay.iter().take_while(|l| l.end() as usize <= cut).count();
        let boundary = n.checked_sub(1).map_or(0, |i| lay[i].end() as usize) == cut;
        let want_err = !boundary as usize;
        let at = |m: Fail| Fail::from(format!("cut at {cut} of {len} ({}): {}", if boundary { "blob boundary" } else { "inside a blob" }, m.msg));
        let src = || Src::vec(data.to_vec()).chunk(if frag { Chunk::Random(9) } else { Chunk::Full }, cut as u64);
        let judge = |errs: usize, what: &str| -> R {
            ensure!(errs == want_err, "{what}: {} (blobs before the cut: {n})", if errs == 0 { "ends as if the file were complete" } else { "reports an error, but the shorter file is complete" });
            Ok(())
        };
        // blob iteration
        let errs = drain(ctx, &mut BlobReader::new(NoSeek(src())), n, &full, lay, "stream", false).map_err(at)?;
        judge(errs, "stream").map_err(at)?;
        let errs = drain(ctx, &mut BlobReader::new_seekable(src()).map_err(|x| format!("{x:?}"))?, n, &full, lay, "seekable stream", true).map_err(at)?;
        judge(errs, "seekable stream").map_err(at)?;
        let disk = !large || cut % 7 == 0;
        let sel = (cut + case as usize) % 4;
        if disk && sel == 0 {
            let p = ctx.file("c20.pbf", data)?;
            let errs = drain(ctx, &mut BlobReader::from_path(&p).map_err(|x| format!("{x:?}"))?, n, &full, lay, "from_path", true).map_err(at)?;
            judge(errs, "from_path").map_err(at)?;
        }
        if disk && sel <= 1 {
            let p = ctx.file("c20.pbf", data)?;
            let m = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
            let mut it = m.blob_iter();
            let (mut i, mut errs) = (0, 0);
            loop {
                match it.next() {
                    None => break,
                    Some(Ok(b)) => {
                        if i >= n || errs > 0 {
                            return Err(at(format!("memory map: yields a blob at {:?} after the {n} complete ones", b.offset()).into()));
                        }
                        let got = (ty_str(&b.get_type()), decoded(&b.decode()));
                        if got != full[i] || b.offset().0 != lay[i].off {
                            return Err(at(format!("memory map: blob {i} is {got:?} at {:?}, stored {:?} at {}", b.offset(), full[i], lay[i].off).into()));
                        }
                        i += 1;
                    }
                    Some(Err(_)) => {
                        errs += 1;
                        if errs > 3 {
                            break;
                        }
                    }
                }
            }
            if i != n || errs > 1 {
                return Err(at(format!("memory map: {i} blobs of {n} complete ones, {errs} errors").into()));
            }
            judge(errs, "memory map").map_err(at)?;
            ctx.add("cuts of memory maps", 1);
        }
        // sequential and parallel element reading
        let mut got = vec![];
        let res = ElementReader::new(src()).for_each(|x| got.push(el_hash(&ob(&x))));
        judge(res.is_err() as usize, "for_each").map_err(at)?;
        let want: Vec<u64> = hs[..n].concat();
        if got.len() > want.len() || got != want {
            return Err(at(format!("for_each delivered {} elements (or other ones), complete blobs hold {}", got.len(), want.len()).into()));
        }
        if sel == 2 || cut % 3 == 0 {
            let res = pool(1 + cut % 4).install(|| ElementReader::new(src()).par_map_reduce(|_| 1u64, || 0, |a, b| a + b));
            match (res, boundary) {
                (Ok(x), true) if x == want.len() as u64 => {}
                (Err(_), false) => {}
                (x, _) => return Err(at(format!("par_map_reduce returns {:?}, complete blobs hold {} elements", x.map_err(|e| format!("{e:?}")), want.len()).into())),
            }
            ctx.add("cuts read in parallel", 1);
        }
        // indexed reading: cut in a data payload, or in the framing of any blob
        if sel >= 2 {
            let in_payload_of = (!boundary).then(|| &lay[n]).filter(|l| cut as u64 >= l.data_off()).map(|_| n);
            let must_fail = !boundary && in_payload_of.map_or(true, |i| f.blobs[i].is_data());
            for op in 0..3 {
                let mut ix = IndexedReader::new(src()).map_err(|x| format!("{x:?}"))?;
                let mut cnt = 0u64;
                let res = match op {
                    0 => ix.for_each_node(|_| cnt += 1),
                    1 => ix.read_ways_and_deps(|_| true, |_| cnt += 1),
                    _ => ix.create_index().and_then(|_| ix.read_ways_and_deps(|_| false, |_| cnt += 1)),
                };
                if must_fail && res.is_ok() {
                    return Err(at(format!("indexed reading (operation {op}) succeeds on the truncated file").into()));
                }
                if boundary && res.is_err() {
                    return Err(at(format!("indexed reading (operation {op}) fails on a complete file: {:?}", res.err()).into()));
                }
                ctx.add("indexed operations on cut files", 1);
            }
        }
        ctx.eval();
        if !boundary {
            ctx.nontrivial(mix(hash_bytes(data) ^ 1));
        }
    }
    ctx.sample(|| format!("cut at every/many positions: {}", gen::describe(&f, &e)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C21

const KINDS: &[IoKind] = &[
    IoKind::Other,
    IoKind::UnexpectedEof,
    IoKind::Interrupted,
    IoKind::WouldBlock,
    IoKind::TimedOut,
    IoKind::PermissionDenied,
    IoKind::InvalidData,
    IoKind::InvalidInput,
    IoKind::NotFound,
    IoKind::BrokenPipe,
    IoKind::ConnectionReset,
    IoKind::OutOfMemory,
    IoKind::Unsupported,
    IoKind::WriteZero,
];

/// Runs one reading method over the source. Returns what it delivered, and whether it claimed to
/// have come to the end.
pub fn method(m: usize, s: Src, lay: &[Lay], filt: i64) -> (Vec<u64>, std::result::Result<(), String>) {
    let mut out: Vec<u64> = vec![];
    fn blob(b: &Blob) -> u64 {
        hash_bytes(format!("{} {:?}", ty_str(&b.get_type()), decoded(&b.decode())).as_bytes())
    }
    let er = |e: Error| format!("{e:?}");
    let res = match m {
        0 | 1 => {
            let mut go = |it: &mut dyn Iterator<Item = Result<Blob>>| -> std::result::Result<(), String> {
                while let Some(b) = it.next() {
                    match b {
                        Ok(b) => out.push(blob(&b)),
                        Err(e) => {
                            if let Some(x) = it.next() {
                                return Err(format!("GOES ON after {e:?}: {:?}", x.map(|b| b.offset())));
                            }
                            return Err(format!("{e:?}"));
                        }
                    }
                }
                Ok(())
            };
            if m == 0 {
                go(&mut BlobReader::new(NoSeek(s)))
            } else {
                BlobReader::new_seekable(BufReader::with_capacity(512, s)).map_err(er).and_then(|mut rd| go(&mut rd))
            }
        }
        2 => (|| {
            let mut rd = BlobReader::new_seekable(s).map_err(er)?;
            while let Some(x) = rd.next_header_skip_blob() {
                let (h, o) = x.map_err(er)?;
                out.push(hash_bytes(format!("{:?} {} {o:?}", h.blob_type(), h.get_blob_size()).as_bytes()));
            }
            Ok(())
        })(),
        3 => (|| {
            let mut rd = BlobReader::new_seekable(s).map_err(er)?;
            for l in lay.iter().rev() {
                let b = rd.blob_from_offset(ByteOffset(l.off)).map_err(er)?;
                out.push(blob(&b));
            }
            Ok(())
        })(),
        4 => ElementReader::new(s).for_each(|e| out.push(el_hash(&ob(&e)))).map_err(er),
        5 => pool(3)
            .install(|| {
                ElementReader::new(s).par_map_reduce(
                    |e| vec![el_hash(&ob(&e))],
                    Vec::new,
                    |mut a, mut b| {
                        a.append(&mut b);
                        a
                    },
                )
            })
            .map(|mut v| {
                v.sort();
                out = v;
            })
            .map_err(er),
        6 => (|| {
            let mut ix = IndexedReader::new(s).map_err(er)?;
            ix.create_index().map_err(er)?;
            ix.for_each_node(|e| out.push(el_hash(&ob(&e)))).map_err(er)
        })(),
        7 => (|| {
            let mut ix = IndexedReader::new(s).map_err(er)?;
            ix.read_ways_and_deps(|w| (w.id() ^ w.refs().len() as i64) & 1 == filt, |e| out.push(el_hash(&ob(e)))).map_err(er)
        })(),
        _ => (|| {
            let mut ix = IndexedReader::new(BufReader::with_capacity(256, s)).map_err(er)?;
            ix.for_each_node(|e| out.push(el_hash(&ob(&e)))).map_err(er)?;
            ix.read_ways_and_deps(|_| true, |e| out.push(el_hash(&ob(e)))).map_err(er)
        })(),
    };
    (out, res)
}

pub const METHODS: &[&str] = &["stream", "buffered stream", "header skipping", "read by offset", "for_each", "par_map_reduce", "index + for_each_node", "read_ways_and_deps", "indexed history"];

fn c21(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let f = if case % 6 == 5 {
        let mut c = Cfg::sized(Size::Small);
        c.connected = true;
        let mut f = gen::file(r, &c);
        let b = gen::block(r, &Cfg { size: Size::Medium, ..c.clone() });
        f.blobs.push(gen::data_blob(r, &c, b));
        f
    } else {
        let mut c = Cfg::sized(Size::Tiny);
        c.connected = true;
        let mut f = gen::file(r, &c);
        let b = gen::block(r, &c);
        f.blobs.push(gen::data_blob(r, &c, b));
        f
    };
    let e = encode(&f, r);
    let ch = match r.below(4) {
        0 => Chunk::Full,
        1 => Chunk::Random(if e.bytes.len() > 3000 { 2000 } else { 40 }),
        2 => Chunk::Max(if e.bytes.len() > 3000 { 700 } else { 5 }),
        _ => Chunk::Full,
    };
    let seed = r.u64();
    let filt = r.below(2) as i64;
    let mk = || Src::bytes(&e.bytes).chunk(ch.clone(), seed);
    for m in 0..METHODS.len() {
        let s = mk();
        let st = s.stats();
        let (want, res) = method(m, s, &e.lay, filt);
        res.map_err(|x| format!("{}: intact file: {x}", METHODS[m]))?;
        let ops = st.lock().unwrap().ops;
        ctx.max("operations of a fault-free run", ops);
        let points: Vec<u64> = if ops <= 120 { (0..ops).collect() } else { (0..120).map(|_| r.below(ops)).collect() };
        if ops <= 120 {
            ctx.add("methods with every operation failed once", 1);
        }
        let ws: std::collections::HashMap<u64, usize> = if m == 5 {
            let mut w = std::collections::HashMap::new();
            for x in &want {
                *w.entry(*x).or_default() += 1;
            }
            w
        } else {
            Default::default()
        };
        let _ = ws;
        for at in points {
            let kind = if r.chance(1, 3) { *r.pick(&[IoKind::UnexpectedEof, IoKind::Interrupted, IoKind::WouldBlock]) } else { *r.pick(KINDS) };
            let persistent = r.chance(1, 2) && kind != IoKind::Interrupted;
            let s = mk().fault(Fault { at, kind, persistent });
            let st = s.stats();
            let (got, res) = method(m, s, &e.lay, filt);
            let hit = st.lock().unwrap().faults > 0;
            ctx.eval();
            let what = || format!("{} with {kind:?} at source operation {at} of {ops} ({})", METHODS[m], if persistent { "persistent" } else { "once" });
            if let Err(x) = &res {
                ensure!(!x.starts_with("GOES ON"), "{}: {x}", what());
            }
            if !hit {
                // The schedule of reads differed; then nothing must have failed.
                ctx.add("faults not reached", 1);
                ensure!(res.is_ok() && got == want, "{}: fault not reached, but result differs", what());
                continue;
            }
            ctx.add(&format!("faults injected ({})", METHODS[m]), 1);
            ctx.nontrivial(mix(hash_bytes(&e.bytes) ^ mix(at ^ (m as u64) << 40) ^ hash_bytes(format!("{kind:?}{persistent}").as_bytes())));
            match res {
                Ok(()) => {
                    ensure!(kind == IoKind::Interrupted, "{}: reported as success, {} items delivered of {}", what(), got.len(), want.len());
                    ensure!(got == want, "{}: retried, but the result differs ({} items, {})", what(), got.len(), want.len());
                    ctx.add("interruptions retried", 1);
                }
                Err(_) => {
                    ctx.add("faults reported", 1);
                    ensure!(got.len() <= want.len() && got == want[..got.len()], "{}: what was delivered before the error is no prefix of the stored data ({} items)", what(), got.len());
                }
            }
        }
    }
    ctx.sample(|| format!("faults at every operation of 9 reading methods: {}", gen::describe(&f, &e)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C24

fn c24(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let (v, _lay, what) = if case < 64 {
        // Directed: blobs that could send a reader back or keep it in place.
        let t = tokened(r, case as usize % 4, Fill::Small);
        let mut v = (*t.enc.bytes).clone();
        let mut h = Msg::new();
        let back = [-1i64, -2, -4, -8, -16, -(v.len() as i64) - 30, -30, i32::MIN as i64, 0, i32::MAX as i64, 1, 2, -20, -21, -22, -23][case as usize / 4];
        h.bytes(1, [&b"OSMData"[..], b"x"][case as usize % 2]).varint(3, back as u64);
        let h = h.finish(&Style::canonical(), r);
        v.extend_from_slice(&(h.len() as u32).to_be_bytes());
        v.extend_from_slice(&h);
        if case % 3 == 0 {
            v.extend_from_slice(&t.enc.bytes);
        }
        (v, t.enc.lay, format!("data size {back}"))
    } else if case % 50 == 49 {
        // zeros and the like
        let n = r.us(3000);
        let b = *r.pick(&[0u8, 1, 0xff, 0x80]);
        (vec![b; n], vec![], format!("{n} bytes of {b}"))
    } else {
        hostile(r)
    };
    let n = v.len() as u64;
    ctx.nontrivial(hash_bytes(&v));
    ctx.sample(|| format!("{what}: {n} bytes"));
    // Every read delivers a byte or reports the end; a blob costs at least 4 bytes of framing.
    let ops = 500 + 30 * n;
    let items = n + 2;
    let fail = |m: String| Fail::from(format!("input ({what}, {n} bytes): {m}"));
    let ch = if r.chance(1, 3) { Chunk::Random(50) } else { Chunk::Full };
    let mk = || Src::vec(v.clone()).chunk(ch.clone(), 5).budget(ops);
    let done = |ctx: &mut Ctx, st: &Arc<std::sync::Mutex<St>>, m: &str| -> R {
        let s = st.lock().unwrap();
        ctx.add("source operations", s.ops);
        ctx.add(&format!("runs ({m})"), 1);
        ctx.max("source operations per input byte, times 100", if n > 50 { s.ops * 100 / n } else { 0 });
        if s.over {
            return Err(fail(format!("{m}: more than {ops} source operations")));
        }
        Ok(())
    };
    for how in 0..3 {
        let s = mk();
        let st = s.stats();
        let name = ["stream", "header skipping", "mixed stream"][how];
        let mut rd = BlobReader::new_seekable(s).map_err(|e| fail(format!("{e:?}")))?;
        let (mut got, mut errs) = (0u64, 0);
        loop {
            let skip = how == 1 || (how == 2 && r.chance(1, 2));
            let x = if skip { rd.next_header_skip_blob().map(|x| x.map(|_| None)) } else { rd.next().map(|x| x.map(Some)) };
            match x {
                None => break,
                Some(Ok(b)) => {
                    got += 1;
                    if let Some(b) = b {
                        let _ = decoded(&b.decode());
                    }
                    if errs > 0 {
                        return Err(fail(format!("{name}: yields a blob after an error")));
                    }
                }
                Some(Err(_)) => {
                    errs += 1;
                    for k in 0..5 {
                        let y = if k % 2 == 0 { rd.next().is_some() } else { rd.next_header_skip_blob().is_some() };
                        if y {
                            return Err(fail(format!("{name}: goes on after an error")));
                        }
                    }
                    break;
                }
            }
            if got > items {
                return Err(fail(format!("{name}: more than {items} blobs")));
            }
        }
        done(ctx, &st, name)?;
        ctx.add("errors followed by the end", errs);
        // After repositioning, the reader works again: same first item as a fresh one.
        rd.seek(ByteOffset(0)).map_err(|e| fail(format!("{e:?}")))?;
        let a = rd.next().map(|x| x.map(|b| (ty_str(&b.get_type()), b.offset())).map_err(|e| errc(&e)));
        // The protobuf decoder takes an overlong varint or not, depending on where its buffer ends:
        // so the other one reads all at once, or byte by byte.
        let first = |c: Chunk| {
            let s = Src::vec(v.clone()).chunk(c, 5);
            BlobReader::new_seekable(s).unwrap().next().map(|x| x.map(|b| (ty_str(&b.get_type()), b.offset())).map_err(|e| errc(&e)))
        };
        let b = first(Chunk::Full);
        if a != b && a != first(Chunk::Max(1)) {
            return Err(fail(format!("{name}: after seeking to the start the reader yields {a:?}, a fresh one {b:?}")));
        }
        ctx.eval();
    }
    // element readers
    for m in [4usize, 5, 6, 7, 8] {
        let s = mk();
        let st = s.stats();
        let (got, _res) = method(m, s, &[], 0);
        done(ctx, &st, METHODS[m])?;
        ctx.add("elements delivered", got.len() as u64);
        ctx.eval();
    }
    // Index creation alone, twice.
    let s = mk();
    let st = s.stats();
    let mut ix = IndexedReader::new(s).map_err(|e| fail(format!("{e:?}")))?;
    for _ in 0..2 {
        let _ = ix.create_index();
    }
    done(ctx, &st, "create_index")?;
    // memory map
    let p = ctx.file("c24.pbf", &v)?;
    let m = unsafe { Mmap::from_path(&p) }.map_err(|e| fail(format!("{e:?}")))?;
    let mut it = m.blob_iter();
    let (mut k, mut errs) = (0u64, 0u64);
    loop {
        match it.next() {
            None => break,
            Some(Ok(b)) => {
                if errs > 0 {
                    return Err(fail("memory map: yields a blob after an error".into()));
                }
                let _ = decoded(&b.decode());
            }
            Some(Err(_)) => errs += 1,
        }
        k += 1;
        if k > items || errs > 1 {
            return Err(fail(format!("memory map: {k} items, {errs} errors")));
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            return Err(fail("memory map: goes on after its end".into()));
        }
    }
    ctx.add("runs (memory map)", 1);
    ctx.eval();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C30

const G: u64 = 1 << 30;

struct Huge {
    sparse: Sparse,
    /// type, offset, data size, expected block
    blobs: Vec<(String, u64, u64, Option<Arc<BlockM>>)>,
}

/// Small blobs separated by huge ones that consist of zeros.
fn huge(r: &mut Rng, gaps: &[u64]) -> Huge {
    let mut h = Huge { sparse: Sparse { segs: vec![], len: 0 }, blobs: vec![] };
    let mut pos = 0u64;
    let cfg = Cfg { connected: true, compress: true, ..Cfg::sized(Size::Small) };
    let small = |r: &mut Rng, pos: &mut u64, h: &mut Huge, hdr: bool| {
        let b = if hdr { gen::header_blob(r, &cfg) } else { let mut c = cfg.clone(); c.mixed_groups = false; let b = gen::block(r, &c); gen::data_blob(r, &cfg, b) };
        let mut out = vec![];
        let l = enc_blob(&b, &mut out, r);
        h.blobs.push((b.ty.clone(), *pos, l.data, b.block().cloned()));
        h.sparse.segs.push((*pos, out));
        *pos += l.end();
    };
    small(r, &mut pos, &mut h, true);
    for g in gaps {
        let few = if gaps.len() > 1000 && !r.chance(1, 100) { 0 } else { r.us(3) };
        for _ in 0..few {
            small(r, &mut pos, &mut h, false);
        }
        // a huge blob of unknown type
        let hd = enc_blob_header("huge", None, *g as i64, &Style::canonical(), r);
        let mut seg = (hd.len() as u32).to_be_bytes().to_vec();
        seg.extend_from_slice(&hd);
        h.blobs.push(("huge".into(), pos, *g, None));
        let n = seg.len() as u64;
        h.sparse.segs.push((pos, seg));
        pos += n + g;
    }
    for _ in 0..1 + r.us(3) {
        small(r, &mut pos, &mut h, false);
    }
    h.sparse.len = pos;
    h
}

fn c30(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    if case == 0 {
        return c30_sequential(ctx, r);
    }
    if case % 8 == 7 {
        return c30_far(ctx, r);
    }
    let max = i32::MAX as u64;
    let gaps: Vec<u64> = match case % 6 {
        1 => vec![max, max, max],
        2 => vec![2 * G - 30, 2 * G - 30, 100, 2 * G - 1],
        3 => vec![max - r.below(1000), max - r.below(1000), 2 + r.below(2000), max],
        4 => (0..12).map(|_| G + r.below(G)).collect(),
        5 => (0..3 + r.us(6)).map(|_| r.below(max)).chain([max, max]).collect(),
        // 260 TiB
        0 if case == 6 => (0..133_000).map(|_| max - r.below(5)).collect(),
        // 1.2 and 16 TiB
        0 if r.chance(1, 4) => (0..*r.pick(&[600, 600, 8200])).map(|_| max - r.below(5)).collect(),
        _ => (0..40).map(|_| max - r.below(5)).collect(), // 80 GiB
    };
    let h = huge(r, &gaps);
    let len = h.sparse.len;
    let blobs = h.blobs;
    let segs: Vec<(u64, Vec<u8>)> = h.sparse.segs.clone();
    let content: Arc<dyn Content> = Arc::new(h.sparse);
    ctx.max("stream length in bytes", len);
    ctx.sample(|| format!("{} blobs in {len} bytes, offsets {:?}", blobs.len(), blobs.iter().map(|b| b.1).take(12).collect::<Vec<_>>()));
    ctx.nontrivial(mix(len) ^ mix(blobs.len() as u64));
    let err = |e: Error| Fail::from(format!("{e:?}"));
    let check = |ctx: &mut Ctx, i: usize, b: &Blob, what: &str| -> R {
        let (ty, off, _, blk) = &blobs[i];
        ensure!(b.offset() == Some(ByteOffset(*off)), "{what}: blob {i} reports offset {:?}, stored at {off}", b.offset());
        ensure!(ty_str(&b.get_type()) == ty_exp(ty), "{what}: blob at {off} has type {:?}, stored {ty:?}", b.get_type());
        if let Some(m) = blk {
            let p = b.to_primitiveblock().map_err(|e| format!("{what}: blob at {off}: {e:?}"))?;
            match_block(&m.exp(), &via_elements(&p), facet::ALL).map_err(|x| format!("{what}: blob at {off}: {x}"))?;
        }
        if *off >= 1 << 32 {
            ctx.add("blobs beyond 4 GiB compared", 1);
        }
        Ok(())
    };
    // header-only iteration, with the small blobs read in full at times
    for full in [false, true] {
        let mut rd = BlobReader::new_seekable(Src::new(content.clone())).map_err(err)?;
        for (i, (ty, off, size, _)) in blobs.iter().enumerate() {
            if full && ty != "huge" {
                let b = rd.next().ok_or(format!("iteration ends before blob {i} at {off}"))?.map_err(err)?;
                check(ctx, i, &b, "stream")?;
            } else {
                let (h, o) = rd.next_header_skip_blob().ok_or(format!("header iteration ends before blob {i} at {off} of {len}"))?.map_err(err)?;
                ensure!(o == Some(ByteOffset(*off)), "header {i} reports offset {o:?}, stored at {off}");
                ensure!(ty_str(&h.blob_type()) == ty_exp(ty) && h.get_blob_size() as u64 == *size, "header at {off}: {:?} {}, stored {ty:?} {size}", h.blob_type(), h.get_blob_size());
                ctx.add("headers compared", 1);
            }
        }
        ensure!(rd.next_header_skip_blob().is_none(), "header iteration goes on at the end of {len} bytes");
        ctx.eval();
    }
    // random access
    let mut rd = BlobReader::new_seekable(Src::new(content.clone())).map_err(err)?;
    let small: Vec<usize> = (0..blobs.len()).filter(|i| blobs[*i].0 != "huge").collect();
    for _ in 0..30 {
        let i = *r.pick(&small);
        let off = blobs[i].1;
        let b = match r.below(4) {
            0 => rd.blob_from_offset(ByteOffset(off)).map_err(|e| format!("blob_from_offset({off}): {e:?}"))?,
            1 => {
                rd.seek(ByteOffset(off)).map_err(err)?;
                rd.next().ok_or(format!("no blob after seek({off})"))?.map_err(err)?
            }
            2 => {
                let p = rd.seek_raw(SeekFrom::End(off as i64 - len as i64)).map_err(err)?;
                ensure!(p == off, "seek_raw from the end returns {p}, position is {off}");
                rd.next().ok_or(format!("no blob after seek_raw to {off}"))?.map_err(err)?
            }
            _ => {
                let now = rd.seek_raw(SeekFrom::Current(0)).map_err(err)?;
                rd.seek_raw(SeekFrom::Current(off as i64 - now as i64)).map_err(err)?;
                rd.next().ok_or(format!("no blob after relative seek to {off}"))?.map_err(err)?
            }
        };
        check(ctx, i, &b, "random access")?;
        ctx.add("random accesses", 1);
    }
    ensure!(rd.blob_from_offset(ByteOffset(len)).is_err(), "blob_from_offset(end) succeeds");
    ctx.eval();
    // indexed reading
    let mut ix = IndexedReader::new(Src::new(content.clone())).map_err(err)?;
    let mut got = vec![];
    ix.for_each_node(|e| got.push(el_hash(&ob(&e)))).map_err(|e| format!("for_each_node: {e:?}"))?;
    let mut want = vec![];
    for b in blobs.iter().filter_map(|b| b.3.as_ref()) {
        for g in b.exp() {
            want.extend(g[0].iter().chain(&g[1]).map(el_hash));
        }
    }
    ensure!(got == want, "for_each_node delivers {} nodes (or other ones), stored {}", got.len(), want.len());
    let mut ways = 0u64;
    let mut deps = std::collections::BTreeSet::new();
    for b in blobs.iter().filter_map(|b| b.3.as_ref()) {
        for g in &b.groups {
            for w in &g.ways {
                ways += 1;
                deps.extend(w.refs.iter().copied());
            }
        }
    }
    let want_nodes = blobs
        .iter()
        .filter_map(|b| b.3.as_ref())
        .flat_map(|b| b.groups.iter())
        .map(|g| g.nodes.iter().chain(g.dense.iter().flat_map(|d| d.nodes.iter())).filter(|n| deps.contains(&n.id)).count() as u64)
        .sum::<u64>();
    let (mut gw, mut gn) = (0u64, 0u64);
    ix.read_ways_and_deps(
        |_| true,
        |e| match e {
            Element::Way(_) => gw += 1,
            _ => gn += 1,
        },
    )
    .map_err(|e| format!("read_ways_and_deps: {e:?}"))?;
    ensure!((gw, gn) == (ways, want_nodes), "read_ways_and_deps delivers {gw} ways and {gn} nodes, stored {ways} and {want_nodes}");
    ctx.add("nodes through the index", got.len() as u64);
    ctx.eval();
    // memory map of a sparse file
    if len < 2000 * G {
        use std::os::unix::fs::FileExt;
        let p = ctx.scratch.join("huge.pbf");
        let f = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&p).map_err(|e| broken(e.to_string()))?;
        f.set_len(len).map_err(|e| broken(format!("sparse file: {e}")))?;
        for (o, s) in &segs {
            f.write_all_at(s, *o).map_err(|e| broken(e.to_string()))?;
        }
        drop(f);
        let res = c30_map(ctx, r, &p, &blobs, len);
        let mut res2 = Ok(());
        if res.is_ok() {
            // the same file through from_path
            let mut rd = BlobReader::from_path(&p).map_err(err)?;
            for (i, (ty, off, _, _)) in blobs.iter().enumerate() {
                if ty != "huge" {
                    let b = rd.next().ok_or(format!("from_path: no blob at {off}"))?.map_err(err)?;
                    res2 = check(ctx, i, &b, "from_path");
                } else {
                    let (_, o) = rd.next_header_skip_blob().ok_or(format!("from_path: no header at {off}"))?.map_err(err)?;
                    if o != Some(ByteOffset(*off)) {
                        res2 = Err(format!("from_path: header reports {o:?}, stored at {off}").into());
                    }
                }
                if res2.is_err() {
                    break;
                }
            }
        }
        let _ = std::fs::remove_file(&p);
        res?;
        res2?;
    }
    Ok(())
}

fn c30_map(ctx: &mut Ctx, r: &mut Rng, p: &std::path::Path, blobs: &[(String, u64, u64, Option<Arc<BlockM>>)], len: u64) -> R {
    let m = unsafe { Mmap::from_path(p) }.map_err(|e| format!("{e:?}"))?;
    let mut it = m.blob_iter();
    let check = |ctx: &mut Ctx, i: usize, b: &MmapBlob| -> R {
        let (ty, off, _, blk) = &blobs[i];
        ensure!(b.offset().0 == *off, "map: blob {i} reports offset {}, stored at {off}", b.offset().0);
        ensure!(ty_str(&b.get_type()) == ty_exp(ty), "map: blob at {off} has type {:?}, stored {ty:?}", b.get_type());
        if let Some(m) = blk {
            match b.decode() {
                Ok(BlobDecode::OsmData(p)) => match_block(&m.exp(), &via_elements(&p), facet::ALL).map_err(|x| format!("map: blob at {off}: {x}"))?,
                x => return Err(format!("map: blob at {off} decodes to {:?}", x.is_ok()).into()),
            }
        }
        if *off >= 1 << 32 {
            ctx.add("mapped blobs beyond 4 GiB compared", 1);
        }
        Ok(())
    };
    for i in 0..blobs.len() {
        match it.next() {
            Some(Ok(b)) => check(ctx, i, &b)?,
            x => return Err(format!("map: blob {i} at {}: {:?}", blobs[i].1, x.map(|x| x.map(|_| ()).map_err(|e| format!("{e:?}")))).into()),
        }
    }
    ensure!(it.next().is_none(), "map: goes on at the end of {len} bytes");
    for _ in 0..20 {
        let i = r.us(blobs.len());
        it.seek(ByteOffset(blobs[i].1));
        match it.next() {
            Some(Ok(b)) => check(ctx, i, &b)?,
            _ => return Err(format!("map: no blob after seek to {}", blobs[i].1).into()),
        }
    }
    for o in [len, len + 1, len + (1 << 32)] {
        it.seek(ByteOffset(o));
        ensure!(it.next().is_none(), "map: blob after seek to {o}, end is {len}");
    }
    ctx.add("maps", 1);
    ctx.eval();
    Ok(())
}

/// A stream that begins far behind the start of its source (as in a partition or an archive).
fn c30_far(ctx: &mut Ctx, r: &mut Rng) -> R {
    let gaps: Vec<u64> = (0..1 + r.us(4)).map(|_| if r.chance(1, 2) { r.below(100_000) } else { r.below(i32::MAX as u64) }).collect();
    let mut h = huge(r, &gaps);
    let size = h.sparse.len;
    let base = match r.below(4) {
        0 => (1u64 << r.range(32, 62)).wrapping_sub(r.below(size)),
        1 => (1 << r.range(32, 62)) + r.below(1000),
        2 => i64::MAX as u64 - size - r.below(3),
        _ => (1 << 32) + r.below(1 << 61),
    };
    for s in &mut h.sparse.segs {
        s.0 += base;
    }
    for b in &mut h.blobs {
        b.1 += base;
    }
    h.sparse.len += base;
    let (len, blobs) = (h.sparse.len, h.blobs);
    let content: Arc<dyn Content> = Arc::new(h.sparse);
    let err = |e: Error| Fail::from(format!("stream at position {base}: {e:?}"));
    let check = |ctx: &mut Ctx, i: usize, b: &Blob, what: &str| -> R {
        let (ty, off, _, blk) = &blobs[i];
        ensure!(b.offset() == Some(ByteOffset(*off)), "stream at position {base}: {what}: blob {i} reports offset {:?}, stored at {off}", b.offset());
        ensure!(ty_str(&b.get_type()) == ty_exp(ty), "stream at position {base}: {what}: blob at {off} has type {:?}, stored {ty:?}", b.get_type());
        if let Some(m) = blk {
            let p = b.to_primitiveblock().map_err(|e| format!("stream at position {base}: {what}: blob at {off}: {e:?}"))?;
            match_block(&m.exp(), &via_elements(&p), facet::ALL).map_err(|x| format!("{what}: blob at {off}: {x}"))?;
        }
        ctx.add("blobs far behind the start of the source compared", 1);
        Ok(())
    };
    let mut rd = BlobReader::new_seekable(Src::new(content.clone()).at(base)).map_err(err)?;
    for (i, (ty, off, size, _)) in blobs.iter().enumerate() {
        if ty != "huge" && r.chance(1, 2) {
            let b = rd.next().ok_or(format!("iteration ends before blob {i} at {off}"))?.map_err(err)?;
            check(ctx, i, &b, "stream")?;
        } else {
            let (h, o) = rd.next_header_skip_blob().ok_or(format!("header iteration ends before blob {i} at {off} of {len}"))?.map_err(err)?;
            ensure!(o == Some(ByteOffset(*off)), "header {i} reports offset {o:?}, stored at {off}");
            ensure!(ty_str(&h.blob_type()) == ty_exp(ty) && h.get_blob_size() as u64 == *size, "header at {off}: {:?} {}, stored {ty:?} {size}", h.blob_type(), h.get_blob_size());
        }
    }
    ensure!(rd.next().is_none() && rd.next_header_skip_blob().is_none(), "iteration goes on at the end of {len} bytes");
    let small: Vec<usize> = (0..blobs.len()).filter(|i| blobs[*i].0 != "huge").collect();
    for _ in 0..20 {
        let i = *r.pick(&small);
        let off = blobs[i].1;
        let how = r.below(4);
        match how {
            0 => rd.seek(ByteOffset(off)).map_err(err)?,
            1 | 2 => {
                let to = if how == 1 {
                    SeekFrom::End(off as i64 - len as i64)
                } else {
                    let now = rd.seek_raw(SeekFrom::Current(0)).map_err(err)?;
                    SeekFrom::Current(off as i64 - now as i64)
                };
                let p = rd.seek_raw(to).map_err(err)?;
                ensure!(p == off, "seek_raw({to:?}) returns {p}, position is {off}");
            }
            _ => {
                let b = rd.blob_from_offset(ByteOffset(off)).map_err(|e| format!("blob_from_offset({off}): {e:?}"))?;
                check(ctx, i, &b, "by offset")?;
                continue;
            }
        }
        let b = rd.next().ok_or(format!("no blob after seeking to {off}"))?.map_err(err)?;
        check(ctx, i, &b, "random access")?;
    }
    ctx.max("stream length in bytes", len);
    ctx.nontrivial(mix(len) ^ mix(blobs.len() as u64));
    ctx.eval();
    Ok(())
}

/// Plain sequential iteration through more than 4 GiB of payloads.
fn c30_sequential(ctx: &mut Ctx, r: &mut Rng) -> R {
    let size: u64 = 110 << 20;
    let n = 41;
    let mut sp = Sparse { segs: vec![], len: 0 };
    let mut offs = vec![];
    let mut pos = 0u64;
    for i in 0..n {
        // The blob message is one raw field of zeros.
        let mut pre = vec![];
        varint(1 << 3 | 2, &mut pre);
        varint(size, &mut pre);
        let data = pre.len() as u64 + size;
        let hd = enc_blob_header(if i % 2 == 0 { "zero" } else { "OSMData" }, None, data as i64, &Style::canonical(), r);
        let mut seg = (hd.len() as u32).to_be_bytes().to_vec();
        seg.extend_from_slice(&hd);
        seg.extend_from_slice(&pre);
        offs.push(pos);
        let l = seg.len() as u64;
        sp.segs.push((pos, seg));
        pos += l + size;
    }
    sp.len = pos;
    let mut k = 0;
    for b in BlobReader::new_seekable(Src::new(Arc::new(sp))).map_err(|e| format!("{e:?}"))? {
        let b = b.map_err(|e| format!("sequential: blob {k}: {e:?}"))?;
        ensure!(k < n && b.offset() == Some(ByteOffset(offs[k])), "sequential: blob {k} reports offset {:?}, stored at {:?}", b.offset(), offs.get(k));
        k += 1;
    }
    ensure!(k == n, "sequential: {k} of {n} blobs");
    ctx.add("blobs read in full beyond 4 GiB", offs.iter().filter(|o| **o >= 1 << 32).count() as u64);
    ctx.max("stream length in bytes", pos);
    ctx.eval();
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case is a generated stream of 0 to 70000 blobs of known and unknown types, each with a unique token in its payload, iterated through plain, fragmenting (random and directed split points), buffered, chained, mid-stream seekable readers and paths; order, type, payload token and offset of every blob are compared. Distinct by stream bytes.",
            directed: |_| 18 + 28,
            minima: &[("blobs compared", 100_000), ("unknown blobs", 1000)],
            run: c01,
            quick_s: 16,
            ..BASE
        },
        Prop {
            id: "C17",
            rule: "A case is a byte sequence (intact, trailing bytes, truncated, mutated, crafted bad blobs, junk) read in lockstep from a stream and a memory map; types, offsets, decoded content and the way both end are compared; then the map is repositioned to known offsets and to the end. Distinct by bytes.",
            directed: |_| 24,
            minima: &[("blobs compared", 2000), ("ended cleanly together", 100), ("ended with an error together", 500), ("seeks in the map", 1000)],
            run: c17,
            ..BASE
        },
        Prop {
            id: "C18",
            rule: "A case runs random histories (iterate, skip, seek absolute/relative/from end, read by offset, failing seeks) on a seekable reader over cursor, fragmenting, buffered and file sources, checked step by step against a position model. Distinct by history and stream.",
            minima: &[("operations", 50_000), ("blobs read by offset", 5000), ("raw seeks", 3000), ("headers skipped", 5000), ("reads past the end", 500)],
            run: c18,
            ..BASE
        },
        Prop {
            id: "C19",
            rule: "A case is a stream of up to 70000 blobs walked by next_header_skip_blob (mixed with full reads) over an instrumented source that records every delivered byte range; types, sizes, offsets are compared and no byte of a skipped payload beyond the buffering may be delivered. Distinct by stream.",
            directed: |_| 8,
            minima: &[("headers compared", 20_000), ("skipped payloads watched", 10_000), ("full reads in between", 1000)],
            run: c19,
            ..BASE
        },
        Prop {
            id: "C20",
            level: "fault_enumeration",
            rule: "A case is a generated file cut at every byte position (small files) or at many positions around all boundaries (larger ones); stream, seekable, path, memory map, sequential, parallel and indexed reading of each cut are judged. Non-trivial: a cut inside a blob; distinct by bytes.",
            minima: &[("files cut at every position", 20), ("reported truncations", 10_000), ("cuts of memory maps", 1000), ("cuts read in parallel", 1000), ("indexed operations on cut files", 1000)],
            run: c20,
            ..BASE
        },
        Prop {
            id: "C21",
            level: "fault_enumeration",
            rule: "A case is a generated file; for each of 9 reading methods the fault-free source operations are counted and the run repeated with a fault (14 error kinds, once or persistent) at every operation (up to 120 per method, sampled beyond). Success is only allowed for retried interruptions, and what was delivered must be an exact prefix. Distinct by file, method, operation and fault.",
            minima: &[("faults reported", 5000), ("methods with every operation failed once", 100), ("interruptions retried", 50)],
            run: c21,
            ..BASE
        },
        Prop {
            id: "C24",
            rule: "A case is a hostile or intact input read by 3 blob iterations, 5 element/indexed reading methods, index creation and the memory map over a source with an operation budget linear in the input size; item counts, errors followed by the end and reuse after repositioning are checked. Distinct by bytes.",
            assumptions: &["'Terminates' is decided as bounded progress: source operations linear in the input (500 + 30 per byte), items at most bytes + 2, and 150 s of CPU time per case as a backstop."],
            directed: |_| 64,
            minima: &[("errors followed by the end", 500), ("runs (create_index)", 500), ("runs (memory map)", 500)],
            run: c24,
            ..BASE
        },
        Prop {
            id: "C30",
            rule: "A case is a virtual stream of 4 GiB to 1.2 TiB, or one that begins at a position of up to 2^63 (small generated blobs between huge blobs of up to 2^31-1 bytes) walked by header skipping, random access, indexed reading and, as a sparse file, by memory map and path; one case reads 4.4 GiB sequentially. Offsets and content of every blob are compared. Distinct by layout.",
            directed: |_| 7,
            shards: 4,
            minima: &[("blobs beyond 4 GiB compared", 50), ("mapped blobs beyond 4 GiB compared", 50), ("blobs read in full beyond 4 GiB", 2), ("maps", 3), ("blobs far behind the start of the source compared", 100)],
            run: c30,
            quick_s: 10,
            ..BASE
        },
    ]
}
