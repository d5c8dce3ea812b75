//! C02, C22, C23, C25, C28, C32: compression, damage, limits, hostile input, sanitizer workloads.

use super::index::{self, op_any, run_op};
use super::read::*;
use super::stream::*;
use super::util::*;
use super::{Prop, BASE};
use crate::alloc;
use crate::ctx::*;
use crate::ensure;
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::pb::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::error::Error as StdError;
use std::io::{Cursor, SeekFrom};
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// C02

const COMPS: &[Comp] = &[
    Comp::Raw,
    Comp::Own(Deflate::Stored),
    Comp::Own(Deflate::Fixed),
    Comp::Own(Deflate::Dynamic),
    Comp::Own(Deflate::Mixed),
    Comp::Lib(0),
    Comp::Lib(1),
    Comp::Lib(2),
    Comp::Lib(3),
    Comp::Lib(4),
    Comp::Lib(5),
    Comp::Lib(6),
    Comp::Lib(7),
    Comp::Lib(8),
    Comp::Lib(9),
];

/// One blob around this message.
fn one(ty: &str, msg: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    put_blob(ty, None, msg, &Style::canonical(), &mut v, &mut Rng::new(1));
    v
}
fn read_one(v: &[u8]) -> R<Blob> {
    match BlobReader::new(v).next() {
        Some(Ok(b)) => Ok(b),
        x => Err(format!("blob is not yielded: {:?}", x.map(|x| x.err())).into()),
    }
}

fn c02(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    // Content with sizes around the windows and block sizes of deflate
    let size = if r.chance(1, 4) { Size::Medium } else { Size::Small };
    let mut b = gen::block(r, &Cfg::sized(size));
    let pad = match case % 9 {
        0 => 0,
        1 => *r.pick(&[32_767usize, 32_768, 32_769, 65_534, 65_535, 65_536, 131_072]),
        2 => r.us(5000),
        3 if case % 27 == 3 => 1_000_000 + r.us(1_000_000),
        _ => r.us(300),
    };
    if pad > 0 {
        let n = 1 + r.below(200);
        b.strings.push((0..pad).map(|i| if n < 100 { b'a' + (i as u64 % n.min(26)) as u8 } else { b' ' + r.below(90) as u8 }).collect());
    }
    // Also content of zero bytes: a header that stores nothing.
    let empty = case % 24 == 5;
    let header = empty || r.chance(1, 6);
    let h = if empty { HeaderM::default() } else { gen::header(r) };
    let exp = b.exp();
    let st = if empty { Style::canonical() } else { Style::random(r) };
    let content = if header { enc_header(&h, &st, r) } else { enc_block(&b, &st, r) };
    let ty = if header { "OSMHeader" } else { "OSMData" };
    let judge = |blob: &Blob, what: &str| -> R {
        if header {
            let g = blob.to_headerblock().map_err(|e| format!("{what}: {e:?}"))?;
            if let Some(d) = header_diff(&h, &g) {
                return Err(format!("{what}: header: {d}").into());
            }
        } else {
            let g = blob.to_primitiveblock().map_err(|e| format!("{what}: {e:?}"))?;
            ensure!(g.raw_stringtable() == &b.strings[..], "{what}: the string table differs");
            match_block(&exp, &via_elements(&g), facet::ALL).map_err(|m| format!("{what}: {m}"))?;
        }
        Ok(())
    };
    let n = if content.len() > 100_000 { 6 } else { COMPS.len() };
    let start = r.us(COMPS.len());
    for k in 0..n {
        let comp = COMPS[(start + k) % COMPS.len()];
        let raw = if r.chance(1, 2) { RawSize::Exact } else { RawSize::Absent };
        let msg = enc_blob_msg(&content, comp, raw, &Style::random(r), r);
        let v = one(ty, &msg);
        let what = format!("{comp:?}, {} bytes, raw size {raw:?}", content.len());
        let blob = read_one(&v)?;
        let fresh = blob.clone();
        for _ in 0..2 {
            judge(&blob, &what)?;
        }
        let (d1, d2) = (decoded(&blob.decode()), decoded(&fresh.decode()));
        ensure!(d1.is_ok() && d1 == d2, "{what}: decoding again gives {d1:?}, a fresh copy {d2:?}");
        judge(&blob, &format!("{what}, decoded again"))?;
        if msg.len() < 20_000 {
            ensure!(format!("{blob:?}") == format!("{fresh:?}"), "{what}: decoding changed the blob");
        }
        let p = ctx.file("c02.pbf", &v)?;
        let m = unsafe { Mmap::from_path(p) }.map_err(|e| format!("{e:?}"))?;
        for x in m.blob_iter() {
            let x = x.map_err(|e| format!("{what}: map: {e:?}"))?;
            for _ in 0..2 {
                let d = decoded(&x.decode());
                ensure!(d == d1, "{what}: from the map it decodes to {d:?}, from the stream to {d1:?}");
            }
        }
        ctx.eval();
        ctx.add(&format!("blobs ({comp:?})"), 1);
        ctx.digest(|| format!("intact {k} {d1:?}"));
        // Damage in the compressed data, behind its two header bytes
        if comp != Comp::Raw {
            let z = compress(&content, comp, r);
            for j in 0..6 {
                let mut z = z.clone();
                let what2 = match r.below(6) {
                    0 => {
                        let n = 2 + r.us(z.len() - 2);
                        z.truncate(n);
                        "cut"
                    }
                    1 => {
                        let n = 2 + r.us(z.len() - 2);
                        z.remove(n);
                        "byte removed"
                    }
                    2 => {
                        let n = 2 + r.us(z.len() - 1);
                        z.insert(n, r.u64() as u8);
                        "byte inserted"
                    }
                    3 => {
                        let n = z.len();
                        z[n - 1 - r.us(4)] ^= 1 << r.us(8);
                        "checksum"
                    }
                    _ => {
                        let n = 2 + r.us(z.len() - 2);
                        z[n] ^= 1 << r.us(8);
                        "bit flipped"
                    }
                };
                let mut m = Msg::new();
                if raw == RawSize::Exact {
                    m.varint(2, content.len() as u64);
                }
                m.bytes(3, &z);
                let v = one(ty, &m.finish(&Style::canonical(), r));
                let blob = read_one(&v)?;
                let d = decoded(&blob.decode());
                let again = decoded(&blob.decode());
                ensure!(d == again, "{what}, {what2}: decodes to {d:?}, the second time to {again:?}");
                match &d {
                    Ok(_) => {
                        ensure!(d == d1, "{what}, {what2}: damaged zlib data decodes to {d:?}, stored {d1:?}");
                        ctx.add("damage without effect on the content", 1);
                    }
                    Err(_) => ctx.add("damaged zlib data reported", 1),
                }
                ctx.eval();
                // The backends are not equally strict about details (such as incomplete code tables), but about these they are.
                if what2 == "cut" || what2 == "checksum" {
                    ensure!(d.is_err(), "{what}, {what2}: damaged zlib data decodes");
                    ctx.digest(|| format!("damaged {k} {j} {what2} {}", d.is_ok()));
                }
            }
        }
    }
    ctx.nontrivial(hash_bytes(&content));
    ctx.max("content size", content.len() as u64);
    ctx.sample(|| format!("{ty} of {} bytes in {n} compressions", content.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C22

fn c22(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let n = 1 + r.us(12);
    let nbad = 1 + r.us(3);
    let d = damaged_file(r, n, nbad, case % 16 == 5, false);
    let what = format!("{} blobs, damaged: {:?}", n, d.bad.iter().map(|b| (b.0, &b.2)).collect::<Vec<_>>());
    let bad = |i: usize| d.bad.iter().find(|b| b.0 == i);
    let check = |ctx: &mut Ctx, i: usize, x: Result<BlobDecode>, how: &str| -> R {
        match (bad(i), x) {
            (Some((_, w, s)), Err(e)) => {
                ensure!(w.is(&e), "{what}: {how}: blob {i} ({s}) gives {e:?}, expected {w:?}");
                ctx.add(&format!("errors classified as {}", format!("{w:?}").split('(').next().unwrap()), 1);
            }
            (Some((_, _, s)), Ok(_)) => return Err(format!("{what}: {how}: blob {i} ({s}) decodes").into()),
            (None, Err(e)) => return Err(format!("{what}: {how}: intact blob {i} gives {e:?}").into()),
            (None, Ok(BlobDecode::OsmData(p))) => {
                match_block(&d.exp[i], &via_elements(&p), facet::ALL).map_err(|m| format!("{what}: {how}: intact blob {i}: {m}"))?;
                ctx.add("intact neighbours decoded", 1);
            }
            (None, Ok(_)) => ensure!(d.exp[i].is_empty(), "{what}: {how}: data blob {i} is not decoded as such"),
        }
        ctx.eval();
        Ok(())
    };
    // Collect all, decode in any order
    let blobs: Vec<Blob> = BlobReader::new(Cursor::new(&d.bytes[..])).collect::<Result<_>>().map_err(|e| format!("{what}: iteration fails: {e:?}"))?;
    ensure!(blobs.len() == n, "{what}: {} blobs yielded", blobs.len());
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    r.shuffle(&mut order);
    for i in order {
        check(ctx, i, blobs[i].decode(), "stream")?;
        if let Some((_, w, s)) = bad(i) {
            let e = if d.header[i] { blobs[i].to_headerblock().err() } else { blobs[i].to_primitiveblock().err() };
            ensure!(e.as_ref().map_or(false, |e| w.is(e)), "{what}: blob {i} ({s}): direct decoding gives {e:?}, expected {w:?}");
        }
    }
    // while iterating
    for (i, b) in BlobReader::new(NoSeek(Src::bytes(&d.bytes).chunk(chunk_any(r, &d.lay), r.u64()))).enumerate() {
        let b = b.map_err(|e| format!("{what}: fragmented iteration fails at {i}: {e:?}"))?;
        check(ctx, i, b.decode(), "fragmented stream")?;
    }
    let mut rd = BlobReader::new_seekable(Cursor::new(&d.bytes[..])).map_err(|e| format!("{e:?}"))?;
    for _ in 0..n {
        let i = r.us(n);
        let b = rd.blob_from_offset(ByteOffset(d.lay[i].off)).map_err(|e| format!("{what}: by offset: blob {i}: {e:?}"))?;
        check(ctx, i, b.decode(), "by offset")?;
    }
    let p = ctx.file("c22.pbf", &d.bytes)?;
    let m = unsafe { Mmap::from_path(&p) }.map_err(|e| format!("{e:?}"))?;
    let mb: Vec<MmapBlob> = m.blob_iter().collect::<Result<_>>().map_err(|e| format!("{what}: map iteration fails: {e:?}"))?;
    ensure!(mb.len() == n, "{what}: {} mapped blobs", mb.len());
    let mut order: Vec<usize> = (0..n).chain(0..n).collect();
    r.shuffle(&mut order);
    for i in order {
        check(ctx, i, mb[i].decode(), "map")?;
    }
    // Random damage to compressed bytes: whatever it does, it stays in its blob.
    let mut v = vec![];
    let mut lay = vec![];
    let k = r.us(3);
    for i in 0..3 {
        let b = BlobM::data(gen::block(r, &Cfg::sized(Size::Tiny)));
        let c = enc_content(&b, r).unwrap();
        let comp = *r.pick(&COMPS[1..]);
        let mut z = compress(&c, comp, r);
        if i == k {
            for _ in 0..1 + r.us(4) {
                let p = r.us(z.len());
                z[p] = r.u64() as u8;
            }
        }
        let mut m = Msg::new();
        m.bytes(3, &z);
        let m = m.finish(&Style::canonical(), r);
        lay.push((put_blob("OSMData", None, &m, &Style::canonical(), &mut v, r), b));
    }
    let mut cnt = 0;
    for (i, b) in BlobReader::new(Cursor::new(&v[..])).enumerate() {
        let b = b.map_err(|e| format!("random damage in blob {k}: iteration fails at {i}: {e:?}"))?;
        cnt += 1;
        match b.to_primitiveblock() {
            Ok(p) if i != k => {
                match_block(&lay[i].1.block().unwrap().exp(), &via_elements(&p), facet::ALL).map_err(|m| format!("random damage in blob {k}, blob {i}: {m}"))?
            }
            Err(e) if i != k => return Err(format!("random damage in blob {k}: blob {i} gives {e:?}").into()),
            Err(e) => {
                ensure!(matches!(errc(&e), ErrC::Protobuf(_) | ErrC::MessageTooBig(_)), "random damage in zlib data gives {e:?}");
                ctx.add("random damage reported", 1);
            }
            Ok(_) => ctx.add("random damage without effect", 1),
        }
    }
    ensure!(cnt == 3, "random damage in blob {k}: {cnt} of 3 blobs yielded");
    ctx.eval();
    for (_, _, s) in &d.bad {
        let kind = s.split(['(', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']).next().unwrap_or("").trim().to_string();
        ctx.add(&format!("damage: {kind}"), 1);
    }
    ctx.nontrivial(hash_bytes(&d.bytes));
    ctx.sample(|| what.clone());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C23

fn wild_u(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => *r.pick(&[0u64, 1, 2, 3, 4, 5, 127, 128]),
        1 => *r.pick(&[i32::MAX as u64, 1 << 31, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 1, (i32::MIN as i64) as u64]),
        2 => r.u64(),
        3 => zz(r.mag(63)),
        4 => r.mag(63) as u64,
        _ => r.below(6),
    }
}

fn wild_list(m: &mut Msg, num: u32, r: &mut Rng, n: usize, st: &Style) {
    if r.chance(1, 8) {
        return;
    }
    let n = match r.below(8) {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => r.us(8),
        _ => n,
    };
    let mode = r.below(4);
    let v: Vec<u64> = (0..n)
        .map(|_| match mode {
            0 => wild_u(r),
            1 => r.below(6),
            2 if r.chance(3, 4) => r.below(10),
            _ => wild_u(r),
        })
        .collect();
    m.list(num, &v, st, r);
}

fn wild_info(r: &mut Rng, st: &Style) -> Vec<u8> {
    let mut m = Msg::new();
    for f in 1..=6 {
        if r.chance(1, 2) {
            let v = wild_u(r);
            m.varint(f, v);
        }
    }
    m.finish(st, r)
}

/// A block message in which every number may be anything and lists have unrelated lengths.
pub fn wild_block(r: &mut Rng) -> Vec<u8> {
    let st = Style::random(r);
    let mut m = Msg::new();
    let mut s = Msg::new();
    for _ in 0..r.us(6) {
        match r.below(5) {
            0 => s.bytes(1, b"\xff\xfe"),
            1 => s.bytes(1, b"ok\xc3"),
            2 => s.bytes(1, b""),
            _ => s.bytes(1, b"key"),
        };
    }
    let s = s.finish(&Style::canonical(), r);
    m.bytes(1, &s);
    for f in [17, 18, 19, 20] {
        if r.chance(1, 3) {
            let v = wild_u(r);
            m.varint(f, v);
        }
    }
    for _ in 0..r.us(4) {
        let mut g = Msg::new();
        for _ in 0..r.us(3) {
            let n = r.us(5);
            match r.below(5) {
                0 => {
                    let mut x = Msg::new();
                    x.varint(1, wild_u(r));
                    wild_list(&mut x, 2, r, n, &st);
                    wild_list(&mut x, 3, r, n, &st);
                    if r.chance(1, 2) {
                        x.bytes(4, &wild_info(r, &st));
                    }
                    x.varint(8, wild_u(r)).varint(9, wild_u(r));
                    let x = x.finish(&st, r);
                    g.bytes(1, &x);
                }
                1 => {
                    let n = r.us(12);
                    let mut x = Msg::new();
                    wild_list(&mut x, 1, r, n, &st);
                    if r.chance(2, 3) {
                        let mut i = Msg::new();
                        for f in 1..=6 {
                            wild_list(&mut i, f, r, n, &st);
                        }
                        let i = i.finish(&st, r);
                        x.bytes(5, &i);
                    }
                    wild_list(&mut x, 8, r, n, &st);
                    wild_list(&mut x, 9, r, n, &st);
                    wild_list(&mut x, 10, r, 3 * n, &st);
                    let x = x.finish(&st, r);
                    g.bytes(2, &x);
                }
                2 => {
                    let mut x = Msg::new();
                    x.varint(1, wild_u(r));
                    wild_list(&mut x, 2, r, n, &st);
                    wild_list(&mut x, 3, r, n, &st);
                    if r.chance(1, 2) {
                        x.bytes(4, &wild_info(r, &st));
                    }
                    for f in [8, 9, 10] {
                        wild_list(&mut x, f, r, n, &st);
                    }
                    let x = x.finish(&st, r);
                    g.bytes(3, &x);
                }
                3 => {
                    let mut x = Msg::new();
                    x.varint(1, wild_u(r));
                    wild_list(&mut x, 2, r, n, &st);
                    wild_list(&mut x, 3, r, n, &st);
                    if r.chance(1, 2) {
                        x.bytes(4, &wild_info(r, &st));
                    }
                    for f in [8, 9, 10] {
                        wild_list(&mut x, f, r, n, &st);
                    }
                    let x = x.finish(&st, r);
                    g.bytes(4, &x);
                }
                _ => {
                    g.bytes(5, &[8, 1]);
                }
            }
        }
        let g = g.finish(&st, r);
        m.bytes(2, &g);
    }
    m.finish(&st, r)
}

/// Any content of a header block.
fn wild_header(r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    if r.chance(1, 2) {
        let mut b = Msg::new();
        for f in 1..=4 {
            if !r.chance(1, 12) {
                b.varint(f, wild_u(r));
            }
        }
        let b = b.finish(&Style::canonical(), r);
        m.bytes(1, &b);
    }
    for f in [4u32, 5, 16, 17, 34] {
        if r.chance(1, 3) {
            m.bytes(f, if r.chance(1, 6) { b"\xff" } else { b"text" });
        }
    }
    for f in [32u32, 33] {
        if r.chance(1, 3) {
            m.varint(f, wild_u(r));
        }
    }
    m.finish(&Style::random(r), r)
}

/// Examines everything that an error tells.
fn exam_err(e: Error) {
    let mut n = format!("{e} {e:?} {e:#?}").len();
    #[allow(deprecated)]
    {
        n += e.description().len();
        n += e.cause().map_or(0, |c| c.to_string().len());
    }
    n += StdError::source(&e).map_or(0, |c| c.to_string().len());
    n += format!("{:?}", e.kind()).len();
    let io: std::io::Error = if n % 2 == 0 { e.into() } else { Error::from(std::io::Error::other(e)).into() };
    let _ = io.to_string().len();
}

/// Partial consumption, clones, hints of an iterator.
fn exam_iter<I: Iterator + Clone>(it: I, r: &mut Rng) {
    let _ = it.size_hint();
    let mut a = it.clone();
    let _ = a.nth(r.us(4));
    let b = a.clone();
    let _ = b.size_hint();
    let _ = b.take(LIST_CAP).count();
    let _ = a.take(LIST_CAP).last();
    let mut c = it;
    for _ in 0..3 {
        let _ = c.next();
        let _ = c.size_hint();
    }
}

pub fn exam_block(ctx: &mut Ctx, p: &PrimitiveBlock, r: &mut Rng) {
    let a = via_elements(p);
    let b = via_callback(p);
    let c = via_groups(p);
    ctx.add("elements examined", (a.len() + b.len()) as u64 + c.iter().flatten().map(|v| v.len() as u64).sum::<u64>());
    ctx.add("blocks examined", 1);
    let _ = p.raw_stringtable().len();
    exam_iter(p.elements(), r);
    exam_iter(p.groups(), r);
    for (gi, g) in p.groups().enumerate() {
        if gi > 40 {
            break;
        }
        exam_iter(g.nodes(), r);
        exam_iter(g.dense_nodes(), r);
        exam_iter(g.ways(), r);
        exam_iter(g.relations(), r);
        for n in g.nodes().take(20) {
            exam_iter(n.tags(), r);
            exam_iter(n.raw_tags(), r);
            let _ = n.tags().len() + n.raw_tags().len();
            if let Some(Err(e)) = n.info().user() {
                exam_err(e);
            }
            let _ = format!("{n:?}").len();
        }
        for n in g.dense_nodes().take(20) {
            exam_iter(n.tags(), r);
            exam_iter(n.raw_tags(), r);
            if let Some(i) = n.info() {
                if let Err(e) = i.user() {
                    exam_err(e);
                }
                let _ = format!("{i:?}").len();
            }
            let _ = format!("{n:?}").len();
        }
        for w in g.ways().take(20) {
            exam_iter(w.tags(), r);
            exam_iter(w.refs(), r);
            exam_iter(w.node_locations(), r);
            let _ = w.refs().len() + w.node_locations().len() + w.raw_refs().len();
            for l in w.node_locations().take(3) {
                let _ = (l.lat(), l.lon(), l.nano_lat(), l.nano_lon(), l.decimicro_lat(), l.decimicro_lon());
            }
            let _ = format!("{w:?}").len();
        }
        for x in g.relations().take(20) {
            exam_iter(x.tags(), r);
            exam_iter(x.members(), r);
            for m in x.members().take(5) {
                if let Err(e) = m.role() {
                    exam_err(e);
                }
                let _ = format!("{m:?}").len();
            }
            let _ = format!("{x:?}").len();
        }
        let _ = format!("{g:?}").len();
    }
    if a.len() < 300 {
        let _ = format!("{p:?}").len();
        for e in p.elements() {
            let _ = format!("{e:?}").len();
        }
    }
}

fn exam_decode(ctx: &mut Ctx, d: Result<BlobDecode>, r: &mut Rng) {
    match d {
        Ok(BlobDecode::OsmData(p)) => exam_block(ctx, &p, r),
        Ok(BlobDecode::OsmHeader(h)) => {
            let _ = format!("{:?} {:?} {h:?}", ob_header(&h), h.bbox());
            ctx.add("headers examined", 1);
        }
        Ok(x) => {
            let _ = format!("{x:?}");
        }
        Err(e) => {
            ctx.add("decoding errors examined", 1);
            exam_err(e)
        }
    }
}

fn exam_blob(ctx: &mut Ctx, b: &Blob, r: &mut Rng) {
    let _ = format!("{:?} {:?}", b.get_type(), b.offset());
    exam_decode(ctx, b.decode(), r);
    match b.to_headerblock() {
        Ok(h) => drop(format!("{:?} {:?}", ob_header(&h), h.bbox())),
        Err(e) => exam_err(e),
    }
    match b.to_primitiveblock() {
        Ok(p) => exam_block(ctx, &p, r),
        Err(e) => exam_err(e),
    }
    let c = b.clone();
    if r.chance(1, 4) {
        let _ = format!("{c:?}").len();
    }
}

/// Everything that can be done with the bytes, except the memory map.
pub fn exam_stream(ctx: &mut Ctx, v: &[u8], lay: &[Lay], r: &mut Rng, par: bool) {
    let data = Arc::new(v.to_vec());
    let mk = |r: &mut Rng| Src::bytes(&data).chunk(chunk_any(r, lay), r.u64());
    for b in BlobReader::new(NoSeek(mk(r))) {
        match b {
            Ok(b) => exam_blob(ctx, &b, r),
            Err(e) => exam_err(e),
        }
    }
    // random operations on a seekable reader
    if let Ok(mut rd) = BlobReader::new_seekable(mk(r)) {
        for _ in 0..12 {
            let pos = match r.below(5) {
                0 if !lay.is_empty() => r.pick(lay).off,
                1 => wild_u(r),
                _ => r.below(v.len() as u64 + 8),
            };
            match r.below(6) {
                0 => match rd.blob_from_offset(ByteOffset(pos)) {
                    Ok(b) => exam_blob(ctx, &b, r),
                    Err(e) => exam_err(e),
                },
                1 => drop(rd.seek(ByteOffset(pos)).map_err(exam_err)),
                2 => drop(rd.seek_raw(SeekFrom::End(r.range(-50, 50))).map_err(exam_err)),
                3 => drop(rd.seek_raw(SeekFrom::Current(if r.chance(1, 4) { wild_u(r) as i64 } else { r.range(-50, 50) })).map_err(exam_err)),
                4 => match rd.next_header_skip_blob() {
                    Some(Ok((h, o))) => drop(format!("{h:?} {o:?} {:?} {}", h.blob_type(), h.get_blob_size())),
                    Some(Err(e)) => exam_err(e),
                    None => {}
                },
                _ => match rd.next() {
                    Some(Ok(b)) => exam_blob(ctx, &b, r),
                    Some(Err(e)) => exam_err(e),
                    None => {}
                },
            }
            ctx.add("random reader operations", 1);
        }
    }
    for m in [2usize, 4, 5, 6, 7, 8] {
        if m == 5 && !par {
            continue;
        }
        let (got, _) = method(m, Src::bytes(&data), lay, 0);
        ctx.add(&format!("runs ({})", METHODS[m]), 1);
        ctx.add("elements delivered", got.len() as u64);
    }
    if let Ok(mut ix) = IndexedReader::new(mk(r)) {
        for _ in 0..4 {
            let op = op_any(r);
            let _ = run_op(&mut ix, op);
        }
    }
}

pub fn exam_map(ctx: &mut Ctx, v: &[u8], lay: &[Lay], r: &mut Rng) -> R {
    let p = ctx.file("c23.pbf", v)?;
    let m = match unsafe { Mmap::from_path(&p) } {
        Ok(m) => m,
        Err(e) => {
            exam_err(e);
            return Ok(());
        }
    };
    let _ = format!("{m:?}").len();
    for b in m.blob_iter() {
        match b {
            Ok(b) => {
                let _ = format!("{:?} {:?}", b.get_type(), b.offset());
                exam_decode(ctx, b.decode(), r);
                if r.chance(1, 4) {
                    let _ = format!("{:?}", b.clone()).len();
                }
                ctx.add("mapped blobs examined", 1);
            }
            Err(e) => exam_err(e),
        }
    }
    let mut it = m.blob_iter();
    for _ in 0..8 {
        let pos = match r.below(5) {
            0 if !lay.is_empty() => r.pick(lay).off,
            1 => wild_u(r),
            _ => r.below(v.len() as u64 + 8),
        };
        it.seek(ByteOffset(pos));
        let mut c = it.clone();
        for x in (&mut it).take(2).chain((&mut c).take(1)) {
            match x {
                Ok(b) => exam_decode(ctx, b.decode(), r),
                Err(e) => exam_err(e),
            }
        }
    }
    Ok(())
}

/// Bytes that may contain anything.
pub fn wild_bytes(r: &mut Rng) -> (Vec<u8>, Vec<Lay>, String) {
    match r.below(10) {
        0..=3 => {
            // valid framing, wild messages
            let mut v = vec![];
            let mut lay = vec![];
            for _ in 0..1 + r.us(4) {
                let (ty, mut c) = match r.below(6) {
                    0 => ("OSMHeader", wild_header(r)),
                    _ if r.chance(1, 3) => ("OSMData", odd_dense_block(r)),
                    _ => ("OSMData", wild_block(r)),
                };
                if r.chance(1, 6) {
                    damage(r, &mut c, &[]);
                }
                let comp = *r.pick(&[Comp::Raw, Comp::Raw, Comp::Own(Deflate::Stored), Comp::Own(Deflate::Dynamic)]);
                let raw = if r.chance(1, 4) { gen::wrong_size(r) } else { RawSize::Exact };
                let m = enc_blob_msg(&c, comp, raw, &Style::random(r), r);
                let other = gen::unknown_type(r);
                let ty = if r.chance(1, 6) { &other } else { ty };
                lay.push(put_blob(ty, None, &m, &Style::random(r), &mut v, r));
            }
            (v, lay, "wild messages".into())
        }
        4 => {
            // deep nesting of unknown groups
            let depth = *r.pick(&[10usize, 99, 100, 101, 1000, 200_000]);
            let mut c = vec![];
            let b = gen::block(r, &Cfg::sized(Size::Tiny));
            if r.chance(1, 2) {
                c = enc_block(&b, &Style::canonical(), r);
            }
            let tag = (100u64 << 3) | 3;
            for _ in 0..depth {
                varint(tag, &mut c);
            }
            if r.chance(1, 2) {
                for _ in 0..depth {
                    varint(tag + 1, &mut c);
                }
            }
            let m = enc_blob_msg(&c, *r.pick(&[Comp::Raw, Comp::Own(Deflate::Fixed)]), RawSize::Absent, &Style::canonical(), r);
            let mut v = vec![];
            let l = put_blob(*r.pick(&["OSMData", "OSMHeader"]), None, &m, &Style::canonical(), &mut v, r);
            (v, vec![l], format!("unknown groups nested {depth} deep"))
        }
        5 => {
            // damage to uncompressed content
            let mut c = Cfg::sized(Size::Small);
            c.compress = false;
            let mut f = gen::file(r, &c);
            f.blobs.truncate(4);
            let e = encode(&f, r);
            let mut v = (*e.bytes).clone();
            let n = 1 + r.us(8);
            for _ in 0..n {
                if !v.is_empty() {
                    let p = r.us(v.len());
                    v[p] = *r.pick(&[0u8, 0xff, 0x7f, 0x80, 1, v[p] ^ 1, v[p].wrapping_add(1)]);
                }
            }
            (v, e.lay, "bytes changed in uncompressed messages".into())
        }
        _ => hostile(r),
    }
}

fn c23(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    if case < 8 {
        // paths that cannot be read
        let d = ctx.scratch.clone();
        let missing = d.join("missing");
        for p in [&d, &missing] {
            let _ = BlobReader::from_path(p).map(|mut x| x.next().map(|x| x.is_ok())).map_err(exam_err);
            let _ = ElementReader::from_path(p).and_then(|x| x.for_each(|_| ())).map_err(exam_err);
            let _ = ElementReader::from_path(p).and_then(|x| x.par_map_reduce(|_| 1, || 0, |a, b| a + b)).map_err(exam_err);
            let _ = IndexedReader::from_path(p).and_then(|mut x| x.create_index()).map_err(exam_err);
            let _ = BlobReader::seekable_from_path(p).map(|mut x| x.next_header_skip_blob().map(|x| x.is_ok())).map_err(exam_err);
            let _ = unsafe { Mmap::from_path(p) }.map_err(exam_err);
        }
    }
    let (v, lay, what) = wild_bytes(r);
    ctx.add(&format!("inputs: {}", what.split([',', ' ']).next().unwrap()), 1);
    exam_stream(ctx, &v, &lay, r, true);
    exam_map(ctx, &v, &lay, r)?;
    ctx.eval();
    ctx.nontrivial(hash_bytes(&v));
    ctx.sample(|| format!("{what}: {} bytes", v.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C25

const LIMIT: usize = 32 * 1024 * 1024;

/// A blob header message of exactly n bytes for a blob of this type.
fn sized_header(n: usize, ty: &str, datasize: i64) -> Vec<u8> {
    let mut r = Rng::new(3);
    let mut pad = n.saturating_sub(30);
    for _ in 0..200 {
        let v = enc_blob_header(ty, Some(&vec![7; pad]), datasize, &Style::canonical(), &mut r);
        if v.len() == n {
            return v;
        }
        if v.len() < n {
            pad += n - v.len();
        } else {
            pad -= v.len() - n;
        }
    }
    panic!("no header of {n} bytes")
}

/// All readers over these bytes, each reduced to what its first blob gives.
fn first_of(ctx: &Ctx, v: &[u8], how: usize) -> R<std::result::Result<(), Error>> {
    Ok(match how {
        0 => BlobReader::new(v).next().unwrap().and_then(|b| b.decode().map(|_| ())),
        1 => BlobReader::new(NoSeek(Src::vec(v.to_vec()).chunk(Chunk::Random(5000), 1))).next().unwrap().and_then(|b| b.decode().map(|_| ())),
        2 => {
            let p = ctx.file("c25.pbf", v)?;
            let m = unsafe { Mmap::from_path(p) }.map_err(|e| format!("{e:?}"))?;
            let x = m.blob_iter().next().unwrap().and_then(|b| b.decode().map(|_| ()));
            x
        }
        3 => ElementReader::new(v).for_each(|_| ()),
        4 => pool(2).install(|| ElementReader::new(v).par_map_reduce(|_| (), || (), |_, _| ())),
        5 => IndexedReader::new(Cursor::new(v)).and_then(|mut x| x.read_ways_and_deps(|_| true, |_| ())),
        6 => IndexedReader::new(Cursor::new(v)).and_then(|mut x| x.for_each_node(|_| ())),
        7 => BlobReader::new_seekable(Cursor::new(v)).and_then(|mut x| x.blob_from_offset(ByteOffset(0))).and_then(|b| b.decode().map(|_| ())),
        _ => BlobReader::new_seekable(Cursor::new(v)).and_then(|mut x| x.next_header_skip_blob().unwrap().map(|_| ())),
    })
}
const FIRST: &[&str] = &["stream", "fragmented stream", "map", "for_each", "par_map_reduce", "way search", "node iteration", "by offset", "header skipping"];

/// Fixed allowance on top of what is proportional to the content.
const FIXED: usize = 160 << 20;

fn measured<T>(ctx: &mut Ctx, what: &str, allowed: usize, f: impl FnOnce(&Ctx) -> R<T>) -> R<T> {
    let m = alloc::mark();
    let x = f(ctx)?;
    let p = alloc::peak_since(m);
    ctx.max(&format!("peak memory in bytes ({what})"), p as u64);
    ctx.add("memory peaks observed", 1);
    ensure!(p <= allowed, "{what}: {p} bytes of memory in use, expected at most {allowed}");
    Ok(x)
}

fn c25(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    match case {
        0..=8 => {
            // header sizes around the limit, by reader
            let how = case as usize;
            for n in [65533usize, 65534, 65535, 65536, 65537, 70000, 131072] {
                for ty in ["OSMData", "OSMHeader", "x"] {
                    let msg = if ty == "OSMData" { enc_blob_msg(&sized_block(60), Comp::Raw, RawSize::Absent, &Style::canonical(), r) } else { enc_blob_msg(&[], Comp::Raw, RawSize::Absent, &Style::canonical(), r) };
                    let h = sized_header(n, ty, msg.len() as i64);
                    let mut v = (n as u32).to_be_bytes().to_vec();
                    v.extend(h);
                    v.extend(&msg);
                    let res = first_of(ctx, &v, how)?;
                    let what = format!("{}: {ty} with a header of {n} bytes", FIRST[how]);
                    if n < 65536 {
                        res.map_err(|e| format!("{what}: {e:?}"))?;
                        ctx.add("headers below the limit accepted", 1);
                    } else {
                        match res {
                            Err(e) if errc(&e) == ErrC::HeaderTooBig(n as u64) => ctx.add("headers at or over the limit rejected", 1),
                            x => return Err(format!("{what}: {x:?}").into()),
                        }
                    }
                    ctx.eval();
                    ctx.nontrivial(mix(n as u64) ^ hash_bytes(ty.as_bytes()) ^ how as u64);
                }
            }
        }
        9..=32 => {
            // content sizes around the limit
            let k = case - 9;
            let n = [LIMIT - 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 4096, LIMIT - 4096][k as usize % 6];
            let ty = ["OSMData", "OSMHeader"][k as usize / 12];
            let comp = [Comp::Raw, Comp::Lib(1)][(k as usize / 6) % 2];
            let content = if ty == "OSMData" {
                sized_block(n)
            } else {
                let mut m = Msg::new();
                let pad = n - 6;
                m.bytes(16, &vec![b'w'; pad]);
                let v = m.finish(&Style::canonical(), r);
                assert_eq!(v.len(), n);
                v
            };
            let msg = enc_blob_msg(&content, comp, if r.chance(1, 2) { RawSize::Exact } else { RawSize::Absent }, &Style::canonical(), r);
            let v = one(ty, &msg);
            drop(content);
            drop(msg);
            for how in [0usize, 2, 3, 6] {
                if ty == "OSMHeader" && how == 6 {
                    continue;
                }
                let what = format!("{}: {ty}, {comp:?}, content of {n} bytes", FIRST[how]);
                let res = measured(ctx, "content around the limit", 4 * LIMIT + FIXED, |c| first_of(c, &v, how))?;
                if n < LIMIT {
                    res.map_err(|e| format!("{what}: {e:?}"))?;
                    ctx.add("content below the limit accepted", 1);
                } else {
                    match res.as_ref().map_err(errc) {
                        Err(ErrC::MessageTooBig(s)) => {
                            ensure!(comp != Comp::Raw || s == n as u64, "{what}: reported size {s}");
                            ctx.add("content at or over the limit rejected", 1)
                        }
                        x => return Err(format!("{what}: {x:?}").into()),
                    }
                }
                ctx.eval();
            }
            ctx.nontrivial(mix(n as u64) ^ hash_bytes(format!("{ty}{comp:?}").as_bytes()));
        }
        33..=40 => {
            // decompression bombs
            let k = case - 33;
            let total = [64usize << 20, 256 << 20, 1 << 30, 3 << 30][k as usize % 4];
            let shape = k / 4;
            let z = {
                use std::io::Write;
                let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(9));
                if shape == 1 {
                    // looks like a string table with one huge string
                    let mut pre = vec![0x0a];
                    varint(total as u64, &mut pre);
                    pre.push(0x0a);
                    varint(total as u64 - 6, &mut pre);
                    e.write_all(&pre).unwrap();
                }
                let buf = vec![0u8; 1 << 20];
                for _ in 0..total >> 20 {
                    e.write_all(&buf).unwrap();
                }
                e.finish().unwrap()
            };
            let mut m = Msg::new();
            match r.below(3) {
                0 => {
                    m.varint(2, 100);
                }
                1 => {
                    m.varint(2, total as u64);
                }
                _ => {}
            }
            m.bytes(3, &z);
            let v = one(*r.pick(&["OSMData", "OSMHeader"]), &m.finish(&Style::canonical(), r));
            for how in [0usize, 2, 3] {
                let what = format!("{}: {total} bytes in {} compressed ones", FIRST[how], z.len());
                let t = crate::sup::cpu();
                let res = measured(ctx, "decompression bomb", FIXED + 2 * LIMIT, |c| first_of(c, &v, how))?;
                ctx.max("CPU milliseconds for a bomb", ((crate::sup::cpu() - t) * 1000.0) as u64);
                match res.as_ref().map_err(errc) {
                    Err(ErrC::MessageTooBig(_)) => ctx.add("bombs stopped", 1),
                    x => return Err(format!("{what}: {x:?}").into()),
                }
                ctx.eval();
            }
            ctx.nontrivial(mix(total as u64) ^ shape);
        }
        _ => {
            // small inputs that claim huge sizes
            let claim = *r.pick(&[i32::MAX as u64, 1 << 30, 100 << 20, 33 << 20, (32 << 20) - 1, 20 << 20]);
            let mut small = sized_block(200 + r.us(2000));
            let mut v = vec![];
            let what: String;
            let mut fine = false;
            match r.below(6) {
                0 => {
                    // data size
                    let h = enc_blob_header("OSMData", None, claim as i64, &Style::canonical(), r);
                    v.extend((h.len() as u32).to_be_bytes());
                    v.extend(h);
                    if r.chance(1, 2) {
                        // ... of a raw field that claims the same
                        v.push(0x0a);
                        varint(claim - 6, &mut v);
                    }
                    v.extend(&small);
                    what = format!("data size {claim}");
                }
                1 => {
                    let comp = *r.pick(&[Comp::Lib(6), Comp::Own(Deflate::Stored)]);
                    // Too much, too little or not even a size: only the real content counts.
                    let n = small.len() as u64;
                    let claim = *r.pick(&[claim, claim, 0, 1, n / 2, n - 1, n + 1, 2 * n, u64::MAX, i32::MIN as i64 as u64, (n as i64).wrapping_neg() as u64]);
                    let mut m = Msg::new();
                    m.varint(2, claim);
                    let z = compress(&small, comp, r);
                    m.bytes(3, &z);
                    v = one("OSMData", &m.finish(&Style::canonical(), r));
                    fine = true;
                    what = format!("raw size {}", claim as i64);
                }
                2 => {
                    // a string that claims to be long
                    let mut c = vec![0x0a];
                    varint(claim, &mut c);
                    c.push(0x0a);
                    varint(claim - 6, &mut c);
                    c.extend(&small);
                    v = one("OSMData", &enc_blob_msg(&c, *r.pick(&[Comp::Raw, Comp::Lib(6)]), RawSize::Absent, &Style::canonical(), r));
                    what = format!("string of {claim} bytes");
                }
                3 => {
                    // packed lists that claim to be long: dense ids
                    let mut d = vec![*r.pick(&[0x0au8, 0x42, 0x4a, 0x52])];
                    varint(claim - 20, &mut d);
                    d.extend([1, 2, 3, 4, 5]);
                    let mut g = vec![0x12];
                    varint(claim - 12, &mut g);
                    g.extend(d);
                    small.push(0x12);
                    varint(claim - 6, &mut small);
                    small.extend(g);
                    v = one("OSMData", &enc_blob_msg(&small, *r.pick(&[Comp::Raw, Comp::Lib(6)]), RawSize::Absent, &Style::canonical(), r));
                    what = format!("list of {claim} bytes");
                }
                4 => {
                    // the zlib field of the blob
                    let mut m = vec![0x1a];
                    varint(claim, &mut m);
                    m.extend(&small);
                    v = one("OSMData", &m);
                    what = format!("zlib field of {claim} bytes");
                }
                _ => {
                    // index data and type of the header
                    let mut h = vec![*r.pick(&[0x0au8, 0x12])];
                    varint(claim, &mut h);
                    h.extend(&small);
                    v.extend((h.len() as u32).to_be_bytes());
                    v.extend(h);
                    what = format!("header field of {claim} bytes");
                }
            }
            let len = v.len();
            for how in 0..FIRST.len() {
                let res = measured(ctx, "small input with huge claims", (40 << 20) + 1000 * len, |c| first_of(c, &v, how)).map_err(|mut f| {
                    f.msg = format!("{what}: {}: {}", FIRST[how], f.msg);
                    f
                })?;
                if fine {
                    if let Err(e) = &res {
                        return Err(format!("{what}: {}: content of {} bytes is rejected: {e:?}", FIRST[how], small.len()).into());
                    }
                    ctx.add("false raw sizes without effect", 1);
                }
                ctx.add(if res.is_err() { "claims rejected" } else { "claims ignored" }, 1);
                ctx.eval();
            }
            ctx.add("small inputs with huge claims", 1);
            ctx.nontrivial(hash_bytes(&v));
            ctx.sample(|| what.clone());
            // Real content: memory in proportion
            let f = {
                let mut c = Cfg::any(r);
                c.odd_groups = false;
                gen::file(r, &c)
            };
            let content: usize = f.blobs.iter().filter_map(|b| enc_content(b, r)).map(|c| c.len()).max().unwrap_or(0);
            let e = encode(&f, r);
            for how in [0usize, 3, 4] {
                measured(ctx, "well-formed files", (40 << 20) + 8 * e.bytes.len() + 200 * content, |_| {
                    match how {
                        0 => {
                            for b in BlobReader::new(&e.bytes[..]) {
                                let _ = b.map(|b| b.decode().is_ok());
                            }
                        }
                        3 => drop(ElementReader::new(&e.bytes[..]).for_each(|_| ())),
                        _ => drop(pool(2).install(|| ElementReader::new(&e.bytes[..]).par_map_reduce(|_| (), || (), |_, _| ()))),
                    }
                    Ok(())
                })?;
                ctx.eval();
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C28: workloads for builds with sanitizers and for Miri

/// A violation of another property is that property's business.
fn ignore(ctx: &mut Ctx, x: R) -> R {
    match x {
        Err(f) if f.harness => Err(f),
        Err(_) => {
            ctx.add("functional differences (judged by other checks)", 1);
            Ok(())
        }
        Ok(()) => Ok(()),
    }
}

fn c28(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let evals = ctx.counters.get("evaluations").copied().unwrap_or(0);
    let name;
    let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match case % 10 {
        0 => ("hand-made blocks", wild_blocks(ctx, 150, r)),
        5 => ("hostile input", c23(ctx, 100 + case, r)),
        1 => ("sharing between threads", c29(ctx, case, r)),
        2 => ("parallel map-reduce", c12(ctx, 100 + case, r)),
        3 => ("damaged files", c13(ctx, 100 + case, r)),
        4 => ("indexed reading", index::c15(ctx, 100 + case, r)),
        6 => ("sharing between threads", c29(ctx, case + 8, r)),
        7 => ("map and stream", c17(ctx, 100 + case, r)),
        8 => ("indexed reading with faults", index::c16(ctx, 100 + case, r)),
        _ => ("iterators and clones", super::blocks::c27(ctx, 100 + case, r)),
    }));
    match x {
        Ok((n, x)) => {
            name = n;
            ignore(ctx, x)?;
        }
        Err(_) => {
            // A panic is not a memory error; the check of C23 judges it.
            name = "ended by a panic";
        }
    }
    ctx.add(&format!("workloads ({name})"), 1);
    let now = ctx.counters.get("evaluations").copied().unwrap_or(0);
    if now == evals {
        ctx.eval();
    }
    Ok(())
}

/// One dense group with a tag list that fits its nodes, nearly.
fn odd_dense_block(r: &mut Rng) -> Vec<u8> {
    let st = Style::canonical();
    let mut s = Msg::new();
    for x in ["", "a", "b", "c"] {
        s.bytes(1, x.as_bytes());
    }
    let s = s.finish(&st, r);
    let n = 1 + r.us(4);
    let mut kv = vec![];
    for i in 0..n {
        for _ in 0..r.us(3) {
            kv.extend([1 + r.below(3), 1 + r.below(3)]);
        }
        match r.below(4) {
            0 if i + 1 == n => kv.push(1 + r.below(4)), // ends within a tag
            1 if i + 1 == n => {}                       // does not end
            2 => kv.extend([1 + r.below(3), 0, 0]),     // empty value
            _ => kv.push(0),
        }
    }
    let mut l = |d: usize| -> Vec<u64> { (0..(n + d).saturating_sub(r.us(2) * r.us(2))).map(|_| zz(r.mag(20))).collect() };
    let (ids, lats, lons, inf) = (l(0), l(0), l(0), (0..6).map(|_| l(0)).collect::<Vec<_>>());
    let mut x = Msg::new();
    x.list(1, &ids, &st, r);
    if r.chance(1, 2) {
        let mut i = Msg::new();
        for (f, v) in inf.iter().enumerate() {
            i.list(f as u32 + 1, v, &st, r);
        }
        let i = i.finish(&st, r);
        x.bytes(5, &i);
    }
    x.list(8, &lats, &st, r).list(9, &lons, &st, r).list(10, &kv, &st, r);
    let x = x.finish(&st, r);
    let mut g = Msg::new();
    g.bytes(2, &x);
    let g = g.finish(&st, r);
    let mut m = Msg::new();
    m.bytes(1, &s).bytes(2, &g);
    m.finish(&st, r)
}

/// Many small blocks with contents no writer would make, raw and compressed, also with wrong sizes.
fn wild_blocks(ctx: &mut Ctx, count: usize, r: &mut Rng) -> R {
    let mut v = vec![];
    for _ in 0..count {
        let c = if r.chance(1, 2) { odd_dense_block(r) } else { wild_block(r) };
        let comp = *r.pick(&[Comp::Raw, Comp::Own(Deflate::Fixed), Comp::Own(Deflate::Stored)]);
        let raw = if r.chance(1, 3) { gen::wrong_size(r) } else { RawSize::Exact };
        let m = enc_blob_msg(&c, comp, raw, &Style::canonical(), r);
        v.clear();
        put_blob("OSMData", None, &m, &Style::canonical(), &mut v, r);
        for b in BlobReader::new(&v[..]).flatten() {
            let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exam_decode(ctx, b.decode(), r)));
            if x.is_err() {
                ctx.add("blocks ended by a panic", 1);
            }
        }
    }
    Ok(())
}

/// A few small workloads for Miri, which is some thousand times slower.
pub fn miri(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let mut cfg = Cfg::sized(Size::Tiny);
    cfg.plain_strings = case % 3 != 0;
    let mut f = gen::file(r, &cfg);
    // At most one blob of every kind
    let mut kinds = vec![];
    f.blobs.retain(|b| {
        let k = (b.ty.clone(), b.block().is_some());
        let new = !kinds.contains(&k);
        kinds.push(k);
        new
    });
    if !f.blobs.iter().any(|b| b.block().is_some()) {
        f.blobs.push(BlobM::data(gen::block(r, &cfg)));
    }
    for b in f.blobs.iter_mut() {
        if let Comp::Lib(_) = b.comp {
            b.comp = Comp::Own(Deflate::Fixed);
        }
    }
    match case % 6 {
        0 | 3 => {
            let e = encode(&f, r);
            for b in BlobReader::new(&e.bytes[..]) {
                match b {
                    Ok(b) => exam_decode(ctx, b.decode(), r),
                    Err(e) => exam_err(e),
                }
            }
            let mut n = 0;
            let _ = ElementReader::new(&e.bytes[..]).for_each(|e| {
                let _ = ob(&e);
                n += 1;
            });
            ctx.add("elements delivered", n);
        }
        1 => {
            wild_blocks(ctx, 4, r)?;
        }
        2 => {
            let e = encode(&f, r);
            let mut v = (*e.bytes).clone();
            if case % 12 == 2 {
                damage(r, &mut v, &e.lay);
            }
            let mut ix = IndexedReader::new(Cursor::new(&v[..])).map_err(|e| format!("{e:?}"))?;
            let mut n = 0;
            let _ = ix.read_ways_and_deps(|_| true, |e| {
                let _ = ob(e);
                n += 1;
            });
            let _ = ix.for_each_node(|e| {
                let _ = ob(&e);
                n += 1;
            });
            let mut rd = BlobReader::new_seekable(Cursor::new(&v[..])).map_err(|e| format!("{e:?}"))?;
            while let Some(Ok(_)) = rd.next_header_skip_blob() {}
            for l in &e.lay {
                if let Ok(b) = rd.blob_from_offset(ByteOffset(l.off)) {
                    exam_decode(ctx, b.decode(), r);
                }
            }
            ctx.add("elements delivered", n);
        }
        4 => {
            let e = encode(&f, r);
            let res = pool(2).install(|| ElementReader::new(&e.bytes[..]).par_map_reduce(|e| el_hash(&ob(&e)), || 0, |a, b| a ^ b));
            let _ = res.map_err(exam_err);
            ctx.add("parallel reads", 1);
        }
        _ => {
            let e = encode(&f, r);
            let blobs: Vec<Blob> = BlobReader::new(&e.bytes[..]).flatten().collect();
            let blocks: Vec<PrimitiveBlock> = blobs.iter().filter_map(|b| b.to_primitiveblock().ok()).collect();
            std::thread::scope(|s| {
                for _ in 0..2 {
                    s.spawn(|| {
                        for b in &blobs {
                            let _ = decoded(&b.decode());
                        }
                        for b in &blocks {
                            b.for_each_element(|e| drop(ob(&e)));
                        }
                    });
                }
            });
            ctx.add("reads shared between threads", 2);
        }
    }
    ctx.eval();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C32

struct Run {
    ok: bool,
    out: String,
    err: String,
    signal: bool,
}

fn run(name: &str, p: &std::path::Path, threads: usize) -> R<Run> {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap().with_file_name(name);
    let o = std::process::Command::new(&exe)
        .arg(p)
        .env("RAYON_NUM_THREADS", threads.to_string())
        .stdin(std::process::Stdio::null())
        .output()
        .map_err(|e| broken(format!("{}: {e}", exe.display())))?;
    Ok(Run {
        ok: o.status.success(),
        out: String::from_utf8_lossy(&o.stdout).into_owned(),
        err: String::from_utf8_lossy(&o.stderr).into_owned(),
        signal: o.status.signal().is_some(),
    })
}

/// The number that follows this label on a line of its own.
fn field(s: &str, label: &str) -> Option<u64> {
    let v: Vec<u64> = s
        .lines()
        .filter_map(|l| {
            let (a, b) = l.split_once(':')?;
            if a.trim().eq_ignore_ascii_case(label) {
                b.trim().parse().ok()
            } else {
                None
            }
        })
        .collect();
    if v.len() == 1 {
        Some(v[0])
    } else {
        None
    }
}

fn c32(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let threads = *r.pick(&[1usize, 2, 4, 8]);
    if case % 4 == 3 {
        // damaged
        let n = 1 + r.us(10);
        let nbad = 1 + r.us(2);
        let d = damaged_file(r, n, nbad, false, true);
        let p = ctx.file("c32.pbf", &d.bytes)?;
        let x = run("ex_count", &p, threads)?;
        let what = format!("damaged file ({:?})", d.bad);
        ensure!(!x.signal, "{what}: the counting program was ended by a signal");
        ensure!(!x.ok, "{what}: the counting program exits successfully: {:?}", x.out);
        for l in ["Nodes", "Ways", "Relations"] {
            ensure!(field(&x.out, l).is_none(), "{what}: the counting program prints counts: {:?}", x.out);
        }
        ctx.eval();
        ctx.add("damaged files refused", 1);
        ctx.nontrivial(hash_bytes(&d.bytes));
        return Ok(());
    }
    let f = match case {
        0 => many_blobs(r, 3000),
        1 => FileM::default(),
        2 => FileM { blobs: vec![BlobM::header(HeaderM::default())] },
        _ if r.chance(1, 3) => {
            let mut c = Cfg::any(r);
            c.connected = r.chance(1, 2);
            c.mixed_groups = r.chance(1, 4);
            gen::file(r, &c)
        }
        _ => {
            let size = *r.pick(&[Size::Tiny, Size::Small, Size::Medium]);
            index::ix_file(r, size, 0)
        }
    };
    let e = encode(&f, r);
    let p = ctx.file("c32.pbf", &e.bytes)?;
    let exp = f.exp();
    let n = |k: usize| exp.iter().map(|g| g[k].len() as u64).sum::<u64>();
    let want = (n(0) + n(1), n(2), n(3));
    let x = run("ex_count", &p, threads)?;
    ensure!(x.ok, "the counting program fails on a well-formed file: {:?} {:?}", x.out, x.err);
    let got = (field(&x.out, "Nodes"), field(&x.out, "Ways"), field(&x.out, "Relations"));
    ensure!(got == (Some(want.0), Some(want.1), Some(want.2)), "the counting program ({threads} threads) prints {:?}, stored nodes, ways and relations: {want:?}", x.out);
    let w = index::deps_of(&f, &|w| w.tags.iter().any(|(k, v)| k == "building" && v == "yes"));
    let ways = w.iter().filter(|e| e.kind == Kind::Way).count() as u64;
    let nodes = w.len() as u64 - ways;
    let x = run("ex_indexed", &p, threads)?;
    ensure!(x.ok, "the building program fails on a well-formed file: {:?} {:?}", x.out, x.err);
    let got = (field(&x.out, "ways"), field(&x.out, "nodes"));
    ensure!(got == (Some(ways), Some(nodes)), "the building program prints {:?}, stored: {ways} building ways with {nodes} stored nodes", x.out);
    ctx.eval();
    ctx.add("program runs judged", 2);
    ctx.add("elements counted", want.0 + want.1 + want.2);
    ctx.add("building ways", ways);
    ctx.add("nodes of buildings", nodes);
    if want.0 + want.1 + want.2 > 0 {
        ctx.nontrivial(content_hash(&exp));
    }
    ctx.sample(|| format!("counts {want:?}, buildings {ways} with {nodes} nodes: {}", gen::describe(&f, &e)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C02",
            rule: "contents by bytes, each in up to 15 compressions; judged: decoded content against the stored one, repeated decoding, damaged zlib data reported or without effect; outcomes compared between the backends rust-zlib, zlib and zlib-ng",
            minima: &[("evaluations", 500), ("damaged zlib data reported", 200)],
            run: c02,
            ..BASE
        },
        Prop {
            id: "C22",
            rule: "files with certain payload damage by bytes; judged: class of every error, exact content of every intact neighbour, via stream, random access and map",
            minima: &[("evaluations", 500), ("intact neighbours decoded", 200), ("errors classified as Empty", 50), ("errors classified as Protobuf", 100), ("errors classified as TooBig", 1)],
            run: c22,
            ..BASE
        },
        Prop {
            id: "C23",
            rule: "input byte sequences; judged: no panic, abort, signal or stack overflow in any reader, accessor or iterator",
            minima: &[("evaluations", 500), ("elements examined", 1000), ("decoding errors examined", 100)],
            directed: |_| 8,
            run: c23,
            ..BASE
        },
        Prop {
            id: "C25",
            rule: "boundary sizes and inputs with false claims, by bytes; judged: acceptance or error with size, and peak of the counting allocator",
            shards: 6,
            minima: &[
                ("evaluations", 200),
                ("headers below the limit accepted", 50),
                ("headers at or over the limit rejected", 50),
                ("content below the limit accepted", 10),
                ("content at or over the limit rejected", 10),
                ("bombs stopped", 20),
            ],
            directed: |_| 41 + 60,
            run: c25,
            mem_cap: 2 << 30,
            ..BASE
        },
        Prop {
            id: "C28",
            rule: "inputs and schedules as in the other checks; judged: no report of AddressSanitizer, ThreadSanitizer, MemorySanitizer or Miri, and no fault signal",
            minima: &[("evaluations", 20)],
            mem_cap: usize::MAX,
            run: c28,
            ..BASE
        },
        Prop {
            id: "C32",
            rule: "files with elements by content, and damaged files; judged: exit status and printed numbers of both programs",
            minima: &[("evaluations", 100), ("damaged files refused", 20), ("building ways", 50)],
            directed: |_| 8,
            run: c32,
            ..BASE
        },
    ]
}
