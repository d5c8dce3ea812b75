//! C11, C12, C13, C29: whole-file reading, sequential and parallel, and sharing between threads.

use super::util::*;
use super::{Prop, BASE};
use crate::ctx::*;
use crate::ensure;
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::pb::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::collections::HashMap;
use std::io::{BufReader, Cursor};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};

// ---------------------------------------------------------------------------------------------
// C11

const SEQ: &[&str] = &["cursor", "path", "fragmenting", "small buffer", "clone", "file"];

/// What for_each delivers.
pub fn for_each_els(ctx: &Ctx, e: &Enc, how: usize, r: &mut Rng) -> R<(Vec<El>, std::result::Result<(), Error>)> {
    let mut v = vec![];
    let res = match SEQ[how] {
        "cursor" => ElementReader::new(NoSeek(Cursor::new(&e.bytes[..]))).for_each(|x| v.push(ob(&x))),
        "path" => {
            let p = ctx.file("seq.pbf", &e.bytes)?;
            ElementReader::from_path(p).and_then(|x| x.for_each(|x| v.push(ob(&x))))
        }
        "fragmenting" => ElementReader::new(NoSeek(Src::bytes(&e.bytes).chunk(chunk_any(r, &e.lay), r.u64()))).for_each(|x| v.push(ob(&x))),
        "small buffer" => {
            let cap = *r.pick(&[1usize, 3, 7, 16, 100, 4096]);
            ElementReader::new(BufReader::with_capacity(cap, Cursor::new(&e.bytes[..]))).for_each(|x| v.push(ob(&x)))
        }
        "clone" => {
            let a = ElementReader::new(Cursor::new(&e.bytes[..]));
            let b = a.clone();
            let mut n = 0u64;
            let r1 = a.for_each(|_| n += 1);
            let r2 = b.for_each(|x| v.push(ob(&x)));
            if let Err(x) = r1 {
                return Ok((v, Err(x)));
            }
            ensure!(r2.is_err() || n == v.len() as u64, "a reader delivers {n} elements, its clone {}", v.len());
            r2
        }
        _ => {
            let p = ctx.file("seq.pbf", &e.bytes)?;
            let f = std::fs::File::open(p).map_err(|x| broken(x.to_string()))?;
            ElementReader::new(f).for_each(|x| v.push(ob(&x)))
        }
    };
    Ok((v, res))
}

/// Many small blobs of one node each, some of other types.
pub fn many_blobs(r: &mut Rng, n: usize) -> FileM {
    let mut f = FileM::default();
    for i in 0..n {
        let mut b = BlobM::data(BlockM {
            strings: vec![vec![]],
            groups: vec![GroupM { nodes: vec![NodeM { id: i as i64 + 1, lat: i as i64, lon: -(i as i64), tags: vec![], info: None }], ..Default::default() }],
            ..Default::default()
        });
        if i % 4099 == 17 {
            b = BlobM::header(HeaderM::default());
        } else if i % 5003 == 99 {
            b.ty = "other".into();
        } else if r.chance(1, 300) {
            b.comp = Comp::Own(Deflate::Fixed);
        }
        f.blobs.push(b);
    }
    f
}

fn dense_block(n: usize, first: i64) -> BlockM {
    let nodes = (0..n).map(|i| NodeM { id: first + i as i64, lat: i as i64 * 3, lon: 7 - i as i64, tags: if i % 3 == 0 { vec![(1, 1)] } else { vec![] }, info: None }).collect();
    BlockM { strings: vec![vec![], b"x".to_vec()], groups: vec![GroupM { dense: Some(DenseM { nodes, with_kv: true, info: DInfo::None }), ..Default::default() }], ..Default::default() }
}

fn many_groups(n: usize) -> BlockM {
    let groups = (0..n)
        .map(|i| match i % 5 {
            0 => GroupM { ways: vec![WayM { id: i as i64, tags: vec![], info: None, refs: vec![1, i as i64], locs: None }], ..Default::default() },
            1 => GroupM::default(),
            2 => GroupM { rels: vec![RelM { id: i as i64, tags: vec![], info: None, members: vec![(1, i as i64, 0)] }], ..Default::default() },
            _ => GroupM { nodes: vec![NodeM { id: i as i64, lat: 1, lon: 2, tags: vec![], info: None }], ..Default::default() },
        })
        .collect();
    BlockM { strings: vec![vec![]], groups, ..Default::default() }
}

fn pick_file(r: &mut Rng, cfg: Cfg, case: u64) -> FileM {
    match case {
        0 => many_blobs(r, 70_000),
        1 => {
            let mut f = FileM::default();
            for i in 0..600 {
                f.blobs.push(if i % 2 == 0 { gen::header_blob(r, &cfg) } else { gen::unknown_blob(r, &cfg) });
            }
            f
        }
        2 => FileM { blobs: vec![BlobM::data(dense_block(70_000, -35_000))] },
        3 => FileM { blobs: vec![BlobM::data(many_groups(66_000))] },
        4 => FileM::default(),
        5 => {
            // Header last, unknown first, everything between
            let mut f = FileM::default();
            f.blobs.push(gen::unknown_blob(r, &cfg));
            f.blobs.push(BlobM::data(dense_block(10, 1)));
            f.blobs.push(gen::header_blob(r, &cfg));
            f.blobs.push(gen::header_blob(r, &cfg));
            f.blobs.push(BlobM::data(many_groups(9)));
            f.blobs.push(gen::unknown_blob(r, &cfg));
            f.blobs.push(BlobM::data(dense_block(3, 100)));
            f.blobs.push(gen::header_blob(r, &cfg));
            f
        }
        6 => {
            // A block just below the size limit
            let mut b = dense_block(8000, 5);
            b.strings.push(vec![b'z'; 33_000_000]);
            let mut x = BlobM::data(b);
            x.comp = Comp::Lib(1);
            let mut f = FileM { blobs: vec![x] };
            f.blobs.push(BlobM::data(dense_block(10, 1)));
            f
        }
        _ => {
            let mut f = gen::file(r, &cfg);
            if r.chance(1, 4) {
                let mut b = gen::unknown_blob(r, &cfg);
                b.ty = gen::unknown_type(r);
                let i = r.us(f.blobs.len() + 1);
                f.blobs.insert(i, b);
            }
            f
        }
    }
}

fn c11(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let mut cfg = Cfg::any(r);
    cfg.mixed_groups = r.chance(1, 5);
    let f = pick_file(r, cfg, case);
    let e = encode(&f, r);
    let exp = f.exp();
    let total: usize = exp.iter().flatten().map(|v| v.len()).sum();
    let big = e.bytes.len() > 2_000_000 || f.blobs.len() > 5000;
    let n = if big { 3 } else { SEQ.len() };
    for how in 0..n {
        let (got, res) = for_each_els(ctx, &e, how, r)?;
        res.map_err(|x| format!("{}: well-formed file: {x:?} after {} of {total} elements", SEQ[how], got.len()))?;
        match_block(&exp, &got, facet::ALL).map_err(|m| format!("{}: {m}", SEQ[how]))?;
        ctx.eval();
        ctx.add(&format!("callbacks ({})", SEQ[how]), got.len() as u64);
    }
    ctx.add("blobs that are no data", f.blobs.iter().filter(|b| !b.is_data()).count() as u64);
    ctx.add("blobs", f.blobs.len() as u64);
    ctx.max("blobs in a file", f.blobs.len() as u64);
    ctx.max("elements in a file", total as u64);
    if total > 0 {
        ctx.nontrivial(content_hash(&exp));
    } else {
        ctx.add("files without elements", 1);
    }
    ctx.sample(|| gen::describe(&f, &e));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C12

#[derive(Default)]
struct Ledger {
    mapped: AtomicU64,
    ids: AtomicU64,
    merged: AtomicU64,
    consumed_twice: AtomicU64,
    lost: AtomicU64,
    lost_mapped: AtomicU64,
    /// (thread, element hash) in the order of the calls
    log: Mutex<Vec<(u32, u64)>>,
}

/// A value that knows whether it was consumed. It is neither `Clone` nor `Copy`, so the library can
/// only move it; dropping it without consuming it is recorded as a loss.
struct Tok {
    parts: Vec<u64>,
    sum: u64,
    prod: u64,
    max: i64,
    ledger: Arc<Ledger>,
    done: bool,
}
impl Drop for Tok {
    fn drop(&mut self) {
        if !self.done {
            self.ledger.lost.fetch_add(1, SeqCst);
            if !self.parts.is_empty() {
                self.ledger.lost_mapped.fetch_add(1, SeqCst);
            }
        }
    }
}
const P: u64 = 2_147_483_647;
impl Tok {
    fn identity(l: &Arc<Ledger>) -> Tok {
        l.ids.fetch_add(1, SeqCst);
        Tok { parts: vec![], sum: 0, prod: 1, max: i64::MIN, ledger: l.clone(), done: false }
    }
    fn map(l: &Arc<Ledger>, h: u64, id: i64) -> Tok {
        l.mapped.fetch_add(1, SeqCst);
        Tok { parts: vec![h], sum: h, prod: h % (P - 1) + 1, max: id, ledger: l.clone(), done: false }
    }
    fn merge(mut a: Tok, mut b: Tok) -> Tok {
        let l = a.ledger.clone();
        if a.done || b.done {
            l.consumed_twice.fetch_add(1, SeqCst);
        }
        a.done = true;
        b.done = true;
        l.merged.fetch_add(1, SeqCst);
        let (mut x, mut y) = (std::mem::take(&mut a.parts), std::mem::take(&mut b.parts));
        if x.len() < y.len() {
            std::mem::swap(&mut x, &mut y);
        }
        x.append(&mut y);
        Tok { parts: x, sum: a.sum.wrapping_add(b.sum), prod: a.prod * b.prod % P, max: a.max.max(b.max), ledger: l, done: false }
    }
}

fn spin(n: u64) {
    for i in 0..n {
        std::hint::black_box(i);
    }
}

#[derive(Clone, Copy, Debug)]
enum Pace {
    None,
    SpinMap,
    YieldMap,
    SleepSome,
    SlowSource,
    SpinReduce,
}

pub fn c12(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let mut cfg = Cfg::any(r);
    cfg.mixed_groups = r.chance(1, 6);
    let quick_big = case < 7;
    let f = match case {
        0 => many_blobs(r, 20_000),
        _ if !quick_big && r.chance(1, 3) => {
            let mut f = many_blobs(r, 0);
            let n = *r.pick(&[2usize, 3, 5, 8, 16, 33, 100, 300]);
            for i in 0..n {
                f.blobs.push(match r.below(12) {
                    0 => gen::header_blob(r, &Cfg::sized(Size::Tiny)),
                    1 => gen::unknown_blob(r, &Cfg::sized(Size::Tiny)),
                    2 => BlobM::data(dense_block(*r.pick(&[0usize, 1, 500, 2000]), i as i64 * 10_000)),
                    _ => BlobM::data(dense_block(1 + r.us(20), i as i64 * 10_000)),
                });
            }
            f
        }
        _ => pick_file(r, cfg, case),
    };
    let e = encode(&f, r);
    let exp = f.exp();
    let mut want: Vec<u64> = exp.iter().flatten().flatten().map(el_hash).collect();
    let (mut sum, mut prod, mut max) = (0u64, 1u64, i64::MIN);
    for x in exp.iter().flatten().flatten() {
        let h = el_hash(x);
        sum = sum.wrapping_add(h);
        prod = prod * (h % (P - 1) + 1) % P;
        max = max.max(x.id);
    }
    let n = want.len() as u64;
    want.sort_unstable();
    ctx.max("elements in a file", n);
    ctx.max("blobs in a file", f.blobs.len() as u64);
    let rounds = if e.bytes.len() > 400_000 { 3 } else { 6 };
    for round in 0..rounds {
        let threads = *r.pick(&[1usize, 2, 2, 3, 4, 4, 8, 16]);
        let pace = *r.pick(&[Pace::None, Pace::SpinMap, Pace::YieldMap, Pace::SleepSome, Pace::SlowSource, Pace::SpinReduce]);
        let slow = n > 3000;
        let l = Arc::new(Ledger::default());
        let seed = r.u64();
        let every = 1 + r.below(if slow { 2000 } else { 40 });
        let map = |x: Element| {
            let o = ob(&x);
            let h = el_hash(&o);
            let t = rayon::current_thread_index().unwrap_or(usize::MAX) as u32;
            if n <= 20_000 {
                l.log.lock().unwrap().push((t, h));
            }
            match pace {
                Pace::SpinMap => spin(mix(h ^ seed) % if slow { 500 } else { 20_000 }),
                Pace::YieldMap if mix(h ^ seed) % 3 == 0 => std::thread::yield_now(),
                Pace::SleepSome if mix(h ^ seed) % every == 0 => std::thread::sleep(std::time::Duration::from_micros(mix(h) % 200)),
                _ => {}
            }
            Tok::map(&l, h, o.id)
        };
        let red = |a: Tok, b: Tok| {
            if let Pace::SpinReduce = pace {
                spin(mix(a.sum ^ b.sum ^ seed) % if slow { 300 } else { 10_000 });
            }
            Tok::merge(a, b)
        };
        let s = Src::bytes(&e.bytes);
        if let Pace::SlowSource = pace {
            s.st.lock().unwrap().delay_us = if f.blobs.len() > 500 { 0 } else { r.below(60) };
        }
        let how = r.below(3);
        let go = || -> Result<Tok> {
            match how {
                0 => ElementReader::new(NoSeek(Cursor::new(&e.bytes[..]))).par_map_reduce(map, || Tok::identity(&l), red),
                1 => ElementReader::new(BufReader::with_capacity(256, s)).par_map_reduce(map, || Tok::identity(&l), red),
                _ => ElementReader::from_path(ctx_path(&ctx.scratch)).and_then(|x| x.par_map_reduce(map, || Tok::identity(&l), red)),
            }
        };
        if how == 2 {
            ctx.file("par.pbf", &e.bytes)?;
        }
        let what = format!("round {round}, {threads} threads, {pace:?}");
        let res = pool(threads).install(go);
        let mut t = res.map_err(|x| format!("{what}: well-formed file: {x:?}"))?;
        t.done = true;
        let mut got = std::mem::take(&mut t.parts);
        let o = |x: &AtomicU64| x.load(SeqCst);
        ensure!(o(&l.mapped) == n, "{what}: the map closure was called {} times for {n} elements", o(&l.mapped));
        got.sort_unstable();
        if got != want {
            let mut c: HashMap<u64, i64> = HashMap::new();
            want.iter().for_each(|x| *c.entry(*x).or_default() += 1);
            got.iter().for_each(|x| *c.entry(*x).or_default() -= 1);
            let (less, more) = (c.values().filter(|x| **x > 0).count(), c.values().filter(|x| **x < 0).count());
            return Err(format!("{what}: result holds {} mapped values of {n}: {less} contents missing, {more} surplus or altered", got.len()).into());
        }
        ensure!(t.sum == sum && t.prod == prod && t.max == max, "{what}: reduction differs from the sequential one: sum {} want {sum}, product {} want {prod}, max {} want {max}", t.sum, t.prod, t.max);
        ensure!(o(&l.consumed_twice) == 0, "{what}: a value was consumed twice");
        ensure!(o(&l.lost_mapped) == 0, "{what}: {} values with mapped content were dropped", o(&l.lost_mapped));
        // created = consumed by merges + dropped + the result
        let made = o(&l.mapped) + o(&l.ids) + o(&l.merged);
        let used = 2 * o(&l.merged) + o(&l.lost) + 1;
        ensure!(made == used, "{what}: {made} values were made, but {used} accounted for");
        ctx.eval();
        ctx.add("map calls", o(&l.mapped));
        ctx.add("reduce calls", o(&l.merged));
        ctx.add("identities made", o(&l.ids));
        ctx.add(&format!("runs with {threads} threads"), 1);
        let log = l.log.lock().unwrap();
        // The schedule: which thread processed which element, in order.
        let mut h = hash_bytes(&(e.bytes.len() as u64).to_le_bytes());
        let mut last = u32::MAX;
        let mut switches = 0;
        let mut ts = std::collections::HashSet::new();
        for (t, x) in log.iter() {
            ts.insert(*t);
            if *t != last {
                switches += 1;
                h = mix(h ^ mix(*t as u64) ^ x);
                last = *t;
            }
        }
        ctx.add("context switches between map calls", switches);
        ctx.max("threads that ran map calls at once", ts.len() as u64);
        if ts.len() > 1 {
            ctx.nontrivial(h);
            ctx.add("runs that used several threads", 1);
        }
        if n == 0 {
            ctx.add("runs on files without elements", 1);
        }
    }
    ctx.sample(|| gen::describe(&f, &e));
    Ok(())
}

fn ctx_path(p: &std::path::Path) -> std::path::PathBuf {
    p.join("par.pbf")
}

// ---------------------------------------------------------------------------------------------
// C13

/// What error a damaged blob must give.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Empty,
    Protobuf,
    TooBig(Option<u64>),
    HeaderTooBig(u64),
    HeaderSize,
    /// Any error: the library need not tell more.
    Any,
}

impl Want {
    pub fn is(&self, e: &Error) -> bool {
        match (self, errc(e)) {
            (Want::Any, _) => true,
            (Want::Empty, ErrC::Empty) => true,
            (Want::Protobuf, ErrC::Protobuf(_)) => true,
            (Want::TooBig(None), ErrC::MessageTooBig(_)) => true,
            (Want::TooBig(Some(n)), ErrC::MessageTooBig(m)) => *n == m,
            (Want::HeaderTooBig(n), ErrC::HeaderTooBig(m)) => *n == m,
            (Want::HeaderSize, ErrC::HeaderSize) => true,
            _ => false,
        }
    }
}

/// Surely damaged content of a protobuf message: the parser must not accept it.
pub fn bad_message(r: &mut Rng, good: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = good.to_vec();
    match r.below(7) {
        0 => {
            // a field that claims more bytes than there are
            v.push(0x0a);
            varint(1 + r.below(1 << 20), &mut v);
            (v, "field longer than the message")
        }
        1 => {
            v.push(0x0a);
            varint(*r.pick(&[1u64 << 31, u32::MAX as u64, 1 << 40, u64::MAX, i64::MAX as u64]), &mut v);
            (v, "field of absurd length")
        }
        2 => {
            // wire types 6 and 7 do not exist
            v.push((9 << 3) | *r.pick(&[6u8, 7]));
            v.push(0);
            (v, "wire type that does not exist")
        }
        3 => {
            // field number 0
            v.push(0);
            v.push(0);
            (v, "field number 0")
        }
        4 => {
            v.push(9 << 3);
            v.extend([0xff; 11]);
            (v, "varint that does not end")
        }
        5 => {
            v.push(9 << 3);
            v.push(0x80);
            (v, "unfinished varint")
        }
        _ => {
            // fixed64 cut short
            v.push((9 << 3) | 1);
            v.extend([1, 2, 3]);
            (v, "fixed field cut short")
        }
    }
}

/// Payload damage that must show when the blob is decoded. Returns the blob message.
pub fn bad_payload(r: &mut Rng, header: bool, heavy: bool) -> (Vec<u8>, Want, String) {
    let st = Style::canonical();
    // Sometimes more than what the buffers of a decoder hold
    let pad = if r.chance(1, 6) { *r.pick(&[5000usize, 33_000, 66_000, 150_000]) } else { 0 };
    let pad: Vec<u8> = (0..pad).map(|i| b'a' + (i % 23) as u8).collect();
    let content = if header {
        let mut h = gen::header(r);
        if !pad.is_empty() {
            h.source = Some(String::from_utf8(pad).unwrap());
        }
        enc_header(&h, &st, r)
    } else {
        let mut b = gen::block(r, &Cfg::sized(Size::Tiny));
        if !pad.is_empty() {
            b.strings.push(pad);
        }
        enc_block(&b, &Style::canonical(), r)
    };
    let comp = |r: &mut Rng| *r.pick(&[Comp::Raw, Comp::Own(Deflate::Stored), Comp::Own(Deflate::Dynamic), Comp::Own(Deflate::Fixed), Comp::Lib(6)]);
    let zmsg = |z: &[u8], r: &mut Rng, raw: Option<u64>| {
        let mut m = Msg::new();
        if let Some(n) = raw {
            m.varint(2, n);
        }
        m.bytes(3, z);
        m.finish(&Style::canonical(), r)
    };
    match r.below(if heavy { 15 } else { 13 }) {
        0 => {
            let f = *r.pick(&[4u32, 5, 6, 7]);
            let mut m = Msg::new();
            if r.chance(1, 2) {
                m.varint(2, content.len() as u64);
            }
            m.bytes(f, &content);
            (m.finish(&st, r), Want::Empty, format!("unsupported compression (field {f})"))
        }
        1 => (vec![], Want::Empty, "no payload at all".into()),
        2 => {
            let mut m = Msg::new();
            m.varint(2, r.below(10_000));
            (m.finish(&st, r), Want::Empty, "only a raw size".into())
        }
        3 | 4 => {
            let (c, w) = bad_message(r, &content);
            let k = comp(r);
            (enc_blob_msg(&c, k, RawSize::Exact, &st, r), Want::Protobuf, format!("{w} ({k:?})"))
        }
        5 => {
            // A required part is missing: the string table of a block, the edges of a bounding box.
            let c = if header {
                let mut b = Msg::new();
                b.varint(1, 4).varint(2, 4).varint(3, 4);
                let bb = b.finish(&st, r);
                let mut m = Msg::new();
                m.bytes(1, &bb);
                m.finish(&st, r)
            } else {
                let mut m = Msg::new();
                m.varint(17, 100);
                if r.chance(1, 2) {
                    m.bytes(2, &[]);
                }
                m.finish(&st, r)
            };
            let k = comp(r);
            (enc_blob_msg(&c, k, RawSize::Exact, &st, r), Want::Protobuf, format!("required field missing ({k:?})"))
        }
        6 => {
            // the zlib header: CMF/FLG check, method or window size
            let mut z = compress(&content, Comp::Own(Deflate::Dynamic), r);
            match r.below(3) {
                0 => z[1] ^= 1,
                1 => z[0] = (z[0] & 0xf0) | 7,
                _ => {
                    z[0] = 0;
                    z[1] = 0;
                }
            }
            (zmsg(&z, r, None), Want::Protobuf, "zlib header".into())
        }
        7 => {
            // the checksum
            let mut z = compress(&content, *r.pick(&[Comp::Own(Deflate::Fixed), Comp::Lib(9), Comp::Own(Deflate::Stored)]), r);
            let n = z.len();
            z[n - 1 - r.us(4)] ^= 1 << r.us(8);
            (zmsg(&z, r, Some(content.len() as u64)), Want::Protobuf, "zlib checksum".into())
        }
        8 | 9 => {
            // The stream stops early
            let z = compress(&content, *r.pick(&[Comp::Own(Deflate::Fixed), Comp::Own(Deflate::Dynamic), Comp::Own(Deflate::Stored), Comp::Lib(6)]), r);
            let n = if r.chance(1, 3) { z.len() - 1 - r.us(4.min(z.len() - 1)) } else { r.us(z.len()) };
            (zmsg(&z[..n], r, Some(content.len() as u64)), Want::Protobuf, format!("zlib stream cut ({n} of {} bytes)", z.len()))
        }
        10 => {
            let n = r.us(30);
            // block type 3 does not exist
            let mut z = vec![0x78, 0x9c, 0x07];
            z.extend((0..n).map(|_| r.u64() as u8));
            (zmsg(&z, r, None), Want::Protobuf, "deflate block type 3".into())
        }
        11 => (zmsg(&[], r, Some(content.len() as u64)), Want::Protobuf, "empty zlib stream".into()),
        12 => {
            // stored block with wrong length complement
            let mut z = compress(&content, Comp::Own(Deflate::Stored), r);
            if z.len() > 7 {
                z[5] ^= 0x10;
            }
            (zmsg(&z, r, None), Want::Protobuf, "deflate stored length".into())
        }
        13 => {
            let n = 32 * 1024 * 1024 + r.below(1000) as usize;
            let m = big_zlib(r, n);
            (m, Want::TooBig(None), "zlib content over the limit".into())
        }
        _ => {
            let n = 32 * 1024 * 1024 + r.below(1000) as usize;
            let mut m = Msg::new();
            m.bytes(1, &vec![0; n]);
            (m.finish(&st, r), Want::TooBig(Some(n as u64)), "raw content over the limit".into())
        }
    }
}

/// A blob message with a valid block of n bytes, compressed.
pub fn big_zlib(r: &mut Rng, n: usize) -> Vec<u8> {
    let c = sized_block(n);
    enc_blob_msg(&c, Comp::Lib(1), RawSize::Exact, &Style::canonical(), r)
}

/// A valid PrimitiveBlock message of exactly n bytes.
pub fn sized_block(n: usize) -> Vec<u8> {
    // stringtable { "", pad }, then an unknown field that takes what is left (3 to 130 bytes)
    let mut s = Msg::new();
    s.bytes(1, b"");
    s.bytes(1, &vec![b'p'; n.saturating_sub(60)]);
    let st = Style::canonical();
    let mut r = Rng::new(1);
    let s = s.finish(&st, &mut r);
    let mut m = Msg::new();
    m.bytes(1, &s);
    let mut v = m.finish(&st, &mut r);
    let d = n - v.len();
    assert!((3..=130).contains(&d));
    varint(100 << 3 | 2, &mut v);
    v.push((d - 3) as u8);
    v.resize(n, 0);
    v
}

/// Damage that stops the iteration over blobs; the bytes end with it.
pub fn bad_frame(r: &mut Rng, out: &mut Vec<u8>) -> (Want, String) {
    let st = Style::canonical();
    let content = {
        let b = gen::block(r, &Cfg::sized(Size::Tiny));
        enc_block(&b, &st, r)
    };
    let good = enc_blob_msg(&content, Comp::Raw, RawSize::Absent, &st, r);
    let ty = *r.pick(&["OSMData", "OSMHeader", "x"]);
    let frame = |h: Vec<u8>, d: &[u8], out: &mut Vec<u8>| {
        out.extend_from_slice(&(h.len() as u32).to_be_bytes());
        out.extend_from_slice(&h);
        out.extend_from_slice(d);
    };
    let mut hdr = Msg::new();
    match r.below(10) {
        0 => {
            let n = *r.pick(&[-1i64, -4, -17, i32::MIN as i64]);
            hdr.bytes(1, ty.as_bytes()).varint(3, n as u64);
            let h = hdr.finish(&st, r);
            frame(h, &good, out);
            (Want::Any, format!("data size {n}"))
        }
        1 => {
            hdr.varint(3, good.len() as u64);
            let h = hdr.finish(&st, r);
            frame(h, &good, out);
            (Want::Protobuf, "header without type".into())
        }
        2 => {
            hdr.bytes(1, ty.as_bytes());
            let h = hdr.finish(&st, r);
            frame(h, &good, out);
            (Want::Protobuf, "header without data size".into())
        }
        3 => {
            hdr.bytes(1, ty.as_bytes()).varint(3, good.len() as u64);
            let h = hdr.finish(&st, r);
            let (h, w) = bad_message(r, &h);
            frame(h, &good, out);
            (Want::Any, format!("header: {w}"))
        }
        4 => {
            let n = *r.pick(&[65536u32, 65537, 1 << 20, 1 << 31, u32::MAX]);
            out.extend_from_slice(&n.to_be_bytes());
            out.extend_from_slice(&good);
            (Want::HeaderTooBig(n as u64), format!("header size {n}"))
        }
        5 => {
            // blob message unparsable
            let (d, w) = bad_message(r, &good);
            hdr.bytes(1, ty.as_bytes()).varint(3, d.len() as u64);
            let h = hdr.finish(&st, r);
            frame(h, &d, out);
            (Want::Any, format!("blob message: {w}"))
        }
        6 => {
            out.extend_from_slice(&[0, 0, 0][..1 + r.us(3)]);
            (Want::HeaderSize, "header size cut".into())
        }
        7 => {
            hdr.bytes(1, ty.as_bytes()).varint(3, good.len() as u64 + 1 + r.below(1000));
            let h = hdr.finish(&st, r);
            frame(h, &good, out);
            (Want::Any, "payload cut".into())
        }
        8 => {
            hdr.bytes(1, ty.as_bytes()).varint(3, good.len() as u64);
            let h = hdr.finish(&st, r);
            let k = r.us(h.len());
            out.extend_from_slice(&(h.len() as u32).to_be_bytes());
            out.extend_from_slice(&h[..k]);
            (Want::Any, "header cut".into())
        }
        _ => {
            out.extend_from_slice(&[0, 0, 0, 0]);
            (Want::Any, "empty header".into())
        }
    }
}

pub struct Damaged {
    pub bytes: Arc<Vec<u8>>,
    pub lay: Vec<Lay>,
    /// Expected elements per blob (empty for blobs that are no intact data)
    pub exp: Vec<Vec<[Vec<El>; 4]>>,
    /// Index, expected error and description of every damaged blob
    pub bad: Vec<(usize, Want, String)>,
    /// The last damaged blob breaks the framing (nothing follows).
    pub frame: bool,
    pub header: Vec<bool>,
}

/// A file with certain damage in it.
pub fn damaged_file(r: &mut Rng, n: usize, nbad: usize, heavy: bool, allow_frame: bool) -> Damaged {
    let cfg = Cfg::sized(Size::Tiny);
    let mut out = vec![];
    let mut d = Damaged { bytes: Arc::new(vec![]), lay: vec![], exp: vec![], bad: vec![], frame: false, header: vec![] };
    let mut at: Vec<usize> = (0..nbad).map(|_| r.us(n)).collect();
    at.sort();
    at.dedup();
    let frame_at = if allow_frame && r.chance(1, 3) { at.last().copied() } else { None };
    let mut heavy_left = heavy as usize;
    for i in 0..n {
        if Some(i) == frame_at {
            let (w, s) = bad_frame(r, &mut out);
            d.bad.push((i, w, s));
            d.frame = true;
            break;
        }
        if at.contains(&i) {
            let header = r.chance(1, 4);
            let (m, w, s) = bad_payload(r, header, heavy_left > 0);
            if let Want::TooBig(_) = w {
                heavy_left = 0;
            }
            let ty = if header { "OSMHeader" } else { "OSMData" };
            let l = put_blob(ty, None, &m, &Style::canonical(), &mut out, r);
            d.lay.push(l);
            d.exp.push(vec![]);
            d.header.push(header);
            d.bad.push((i, w, s));
            continue;
        }
        let b = match r.below(8) {
            0 => gen::header_blob(r, &cfg),
            1 => gen::unknown_blob(r, &cfg),
            _ => {
                let b = gen::block(r, &cfg);
                gen::data_blob(r, &cfg, b)
            }
        };
        d.lay.push(enc_blob(&b, &mut out, r));
        d.exp.push(b.block().map_or(vec![], |b| b.exp()));
        d.header.push(!b.is_data());
    }
    d.bytes = Arc::new(out);
    d
}

pub fn c13(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let n = match r.below(10) {
        0 => 1,
        1 => 2,
        2 => 40 + r.us(60),
        _ => 2 + r.us(14),
    };
    let nbad = *r.pick(&[1usize, 1, 1, 2, 3]);
    let d = damaged_file(r, n, nbad, case % 16 == 3, true);
    let first = d.bad[0].clone();
    let what = format!("{} in blob {} of {n}", first.2, first.0);
    let e = Enc { bytes: d.bytes.clone(), lay: d.lay.clone() };
    // sequential
    let exp: Vec<[Vec<El>; 4]> = d.exp.iter().take(first.0).flatten().cloned().collect();
    for how in 0..SEQ.len() {
        if SEQ[how] == "clone" {
            continue;
        }
        let (got, res) = for_each_els(ctx, &e, how, r)?;
        let err = match res {
            Ok(()) => return Err(format!("{what}: sequential reading ({}) returns success after {} elements", SEQ[how], got.len()).into()),
            Err(x) => x,
        };
        match_block(&exp, &got, facet::ALL).map_err(|m| format!("{what}: sequential reading ({}) before the error: {m}", SEQ[how]))?;
        ensure!(first.1.is(&err), "{what}: sequential reading ({}) returns {err:?}, expected {:?}", SEQ[how], first.1);
        ctx.eval();
        ctx.add("sequential errors", 1);
    }
    // parallel
    let rounds = if ctx.quick() { 6 } else { 10 };
    for _ in 0..rounds {
        let threads = *r.pick(&[1usize, 2, 3, 4, 8]);
        let seed = r.u64();
        let pace = r.below(3);
        let s = Src::bytes(&d.bytes).chunk(Chunk::Random(4000), seed);
        s.st.lock().unwrap().delay_us = if pace == 1 { r.below(40) } else { 0 };
        let seen = AtomicU64::new(0);
        let res = pool(threads).install(|| {
            ElementReader::new(NoSeek(s)).par_map_reduce(
                |x| {
                    let o = ob(&x);
                    if pace == 2 {
                        spin(mix(el_hash(&o) ^ seed) % 8000);
                    }
                    seen.fetch_add(1, SeqCst);
                    1u64
                },
                || 0,
                |a, b| a + b,
            )
        });
        match res {
            Ok(v) => return Err(format!("{what} ({} damaged): par_map_reduce with {threads} threads returns Ok({v})", d.bad.len()).into()),
            Err(x) => {
                ensure!(d.bad.iter().any(|b| b.1.is(&x)), "{what}: par_map_reduce returns {x:?}, which no damaged blob explains ({:?})", d.bad);
            }
        }
        ctx.eval();
        ctx.add("parallel errors", 1);
        ctx.add(&format!("runs with {threads} threads"), 1);
    }
    let kind = first.2.split('(').next().unwrap_or("").trim().to_string();
    ctx.add(&format!("damage: {}", kind.split(|c: char| c.is_ascii_digit() || c == '-').next().unwrap_or("").trim()), 1);
    ctx.nontrivial(hash_bytes(&d.bytes));
    ctx.sample(|| format!("{what}; all: {:?}", d.bad));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C29

fn block_view(p: &PrimitiveBlock, how: u64) -> Vec<u64> {
    match how % 4 {
        0 => p.elements().map(|e| el_hash(&ob(&e))).collect(),
        1 => {
            let mut v = vec![];
            p.for_each_element(|e| v.push(el_hash(&ob(&e))));
            v
        }
        2 => p
            .groups()
            .flat_map(|g| {
                let mut v: Vec<u64> = g.nodes().map(|x| el_hash(&ob_node(&x))).collect();
                v.extend(g.dense_nodes().map(|x| el_hash(&ob_dense(&x))));
                v.extend(g.ways().map(|x| el_hash(&ob_way(&x))));
                v.extend(g.relations().map(|x| el_hash(&ob_rel(&x))));
                v
            })
            .collect(),
        _ => p.clone().elements().map(|e| el_hash(&ob(&e))).collect(),
    }
}

fn header_view(h: &HeaderBlock) -> Vec<u64> {
    vec![hash_bytes(format!("{:?} {:?}", ob_header(h), h.bbox()).as_bytes())]
}

fn decode_view(d: Result<BlobDecode>, how: u64) -> std::result::Result<Vec<u64>, String> {
    match d {
        Err(e) => Err(format!("{:?}", errc(&e))),
        Ok(BlobDecode::OsmData(p)) => Ok(block_view(&p, how)),
        Ok(BlobDecode::OsmHeader(h)) => Ok(header_view(&h)),
        Ok(BlobDecode::Unknown(s)) => Ok(vec![hash_bytes(s.as_bytes())]),
    }
}

type View = std::result::Result<Vec<u64>, String>;

/// Runs `f` on several threads at the same time, `rounds` times each; every result must be `want`.
fn together<T: Sync>(ctx: &mut Ctx, threads: usize, rounds: u64, what: &str, items: &[T], want: &[View], f: impl Fn(&T, u64) -> View + Sync) -> R {
    let bar = Barrier::new(threads);
    let order: Mutex<Vec<(usize, usize)>> = Mutex::new(vec![]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (bar, order, bad, f) = (&bar, &order, &bad, &f);
            s.spawn(move || {
                for round in 0..rounds {
                    bar.wait();
                    for k in 0..items.len() {
                        // some threads take the same item at the same time, others run ahead
                        let i = if t % 2 == 0 { k } else { (k + t / 2) % items.len() };
                        let got = f(&items[i], t as u64 + round);
                        order.lock().unwrap().push((t, i));
                        if got != want[i] {
                            let m = match (&got, &want[i]) {
                                (Ok(a), Ok(b)) => format!("{} elements or other content, alone {}", a.len(), b.len()),
                                (a, b) => format!("{:?}, alone {:?}", a.as_ref().map(|v| v.len()), b.as_ref().map(|v| v.len())),
                            };
                            let mut g = bad.lock().unwrap();
                            if g.is_none() {
                                *g = Some(format!("{what}: thread {t} of {threads}, item {i}, round {round}: {m}"));
                            }
                        }
                    }
                }
            });
        }
    });
    if let Some(m) = bad.into_inner().unwrap() {
        return Err(m.into());
    }
    let o = order.into_inner().unwrap();
    ctx.add(&format!("concurrent reads ({what})"), o.len() as u64);
    let mut h = hash_bytes(what.as_bytes());
    let mut switches = 0;
    for w in o.windows(2) {
        if w[0].0 != w[1].0 {
            switches += 1;
        }
    }
    for (t, i) in &o {
        h = mix(h ^ (*t as u64) << 32 ^ *i as u64);
    }
    ctx.add("context switches between reads", switches);
    if switches > 1 {
        ctx.nontrivial(h);
    }
    ctx.eval();
    Ok(())
}

pub fn c29(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let mut cfg = Cfg::any(r);
    if cfg.size == Size::Large {
        cfg.size = Size::Medium;
    }
    let mut f = gen::file(r, &cfg);
    f.blobs.truncate(24);
    let b = gen::block(r, &Cfg::sized(Size::Small));
    f.blobs.push(gen::data_blob(r, &cfg, b));
    if r.chance(1, 6) {
        // A big one, incompressible for the most part
        f.blobs.truncate(3);
        let mut b = dense_block(*r.pick(&[10usize, 1000, 8000]), 1);
        let n = *r.pick(&[20_000usize, 70_000, 300_000, 1_500_000]);
        b.strings.push((0..n).map(|_| b' ' + r.below(90) as u8).collect());
        let mut x = BlobM::data(b);
        x.comp = if r.chance(3, 4) { Comp::Lib(1) } else { Comp::Raw };
        f.blobs.push(x);
        ctx.add("files with a big blob", 1);
    }
    let mut e = encode(&f, r);
    let damaged = r.chance(1, 4);
    if damaged {
        // damaged blobs give the same error in every thread
        let mut v = (*e.bytes).clone();
        let (m, _, _) = bad_payload(r, false, false);
        let l = put_blob("OSMData", None, &m, &Style::canonical(), &mut v, r);
        e.lay.push(l);
        e.bytes = Arc::new(v);
    }
    let threads = *r.pick(&[2usize, 3, 4, 8, 12]);
    let rounds = if e.bytes.len() > 100_000 { 1 } else { 3 };
    let mut want: Vec<View> = f
        .blobs
        .iter()
        .map(|b| match &b.payload {
            Payload::Data(d) if b.is_data() => Ok(d.exp().iter().flatten().flatten().map(el_hash).collect()),
            Payload::Header(_) => Ok(vec![]), // filled in below
            _ => Ok(vec![hash_bytes(b.ty.as_bytes())]),
        })
        .collect();
    let all = || -> Result<Vec<Blob>> { BlobReader::new(Cursor::new(&e.bytes[..])).collect() };
    let blobs = all().map_err(|x| format!("well-formed file: {x:?}"))?;
    for (i, b) in blobs.iter().enumerate() {
        if i >= want.len() {
            want.push(decode_view(b.decode(), 0));
            ensure!(want[i].is_err(), "damaged blob decodes");
        } else if f.blobs[i].ty == "OSMHeader" {
            want[i] = decode_view(b.decode(), 0);
            ensure!(want[i].is_ok(), "header does not decode");
        }
    }
    // Fresh blobs that nobody decoded before.
    let fresh = all().map_err(|x| format!("{x:?}"))?;
    match (case / 8) % 5 {
        0 => together(ctx, threads, rounds, "decode one blob", &fresh, &want, |b, h| decode_view(b.decode(), h))?,
        1 => {
            // one block, shared
            let mut blocks = vec![];
            let mut w = vec![];
            for (i, b) in fresh.iter().enumerate() {
                if b.get_type() == BlobType::OsmData {
                    if let Ok(p) = b.to_primitiveblock() {
                        blocks.push(p);
                        w.push(want[i].clone());
                    }
                }
            }
            together(ctx, threads, rounds, "traverse one block", &blocks, &w, |p, h| Ok(block_view(p, h)))?;
            // one group, one way etc. are shared, too
            let mut views = vec![];
            let mut els = vec![];
            for p in &blocks {
                for el in p.elements() {
                    views.push(Ok(vec![el_hash(&ob(&el))]));
                    els.push(el);
                    if els.len() > 500 {
                        break;
                    }
                }
            }
            together(ctx, threads, rounds, "read one element", &els, &views, |x, _| Ok(vec![el_hash(&ob(x))]))?;
        }
        2 => {
            let p = ctx.file("share.pbf", &e.bytes)?;
            let m = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
            let mb: Vec<MmapBlob> = m.blob_iter().collect::<Result<_>>().map_err(|x| format!("mmap: {x:?}"))?;
            together(ctx, threads, rounds, "decode one mapped blob", &mb, &want, |b, h| decode_view(b.decode(), h))?;
            // Iterators over the same map, and clones of one iterator
            let flat: View = Ok(want.iter().flat_map(|w| match w {
                Ok(v) => v.clone(),
                Err(e) => vec![hash_bytes(e.as_bytes())],
            }).collect());
            let it = m.blob_iter();
            let one = [it];
            together(ctx, threads, 1, "iterate one map", &one, &[flat], |it, h| {
                let it: MmapBlobReader = if h % 2 == 0 { (*it).clone() } else { m.blob_iter() };
                let mut v = vec![];
                for b in it {
                    match b {
                        Ok(b) => match decode_view(b.decode(), h) {
                            Ok(x) => v.extend(x),
                            Err(e) => v.push(hash_bytes(e.as_bytes())),
                        },
                        Err(e) => return Err(format!("{e:?}")),
                    }
                }
                Ok(v)
            })?;
        }
        3 => {
            // Independent readers over different files
            let mut files = vec![];
            let mut w = vec![];
            for _ in 0..threads.min(6) {
                let mut c = Cfg::sized(Size::Small);
                c.connected = true;
                let f = gen::file(r, &c);
                let e = encode(&f, r);
                w.push(Ok(f.exp().iter().flatten().flatten().map(el_hash).collect::<Vec<u64>>()));
                files.push(e);
            }
            together(ctx, threads, rounds, "independent sequential readers", &files, &w, |e, h| {
                let mut v = vec![];
                let s = Src::bytes(&e.bytes).chunk(Chunk::Random(100 + h as usize), h);
                match ElementReader::new(s).for_each(|x| v.push(el_hash(&ob(&x)))) {
                    Ok(()) => Ok(v),
                    Err(e) => Err(format!("{e:?}")),
                }
            })?;
            // parallel readers at the same time, in one and in several pools
            let ws: Vec<View> = w
                .iter()
                .map(|x| {
                    let mut v = x.clone().unwrap();
                    v.sort_unstable();
                    Ok(v)
                })
                .collect();
            together(ctx, threads, rounds, "independent parallel readers", &files, &ws, |e, h| {
                let res = pool(2 + (h % 3) as usize).install(|| {
                    ElementReader::new(Cursor::new(&e.bytes[..])).par_map_reduce(
                        |x| vec![el_hash(&ob(&x))],
                        Vec::new,
                        |mut a, mut b| {
                            a.append(&mut b);
                            a
                        },
                    )
                });
                match res {
                    Ok(mut v) => {
                        v.sort_unstable();
                        Ok(v)
                    }
                    Err(e) => Err(format!("{e:?}")),
                }
            })?;
        }
        _ => {
            // Indexed readers, each in its own thread, over different files
            let mut files = vec![];
            let mut w: Vec<View> = vec![];
            for _ in 0..threads.min(5) {
                let mut c = Cfg::sized(Size::Small);
                c.connected = true;
                let f = gen::file(r, &c);
                let e = encode(&f, r);
                w.push(Ok(super::index::nodes_of(&f).iter().map(el_hash).chain(super::index::deps_of(&f, &|_| true).iter().map(el_hash)).collect()));
                files.push(e);
            }
            together(ctx, threads, rounds, "independent indexed readers", &files, &w, |e, _| {
                let mut v = vec![];
                let mut go = || -> Result<()> {
                    let mut ix = IndexedReader::new(Cursor::new(&e.bytes[..]))?;
                    ix.for_each_node(|x| v.push(el_hash(&ob(&x))))?;
                    ix.read_ways_and_deps(|_| true, |x| v.push(el_hash(&ob(x))))
                };
                go().map_err(|e| format!("{e:?}"))?;
                Ok(v)
            })?;
        }
    }
    ctx.max("threads", threads as u64);
    ctx.sample(|| format!("{threads} threads: {}", gen::describe(&f, &e)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "files with at least one element, by content; judged: the sequence of callbacks of for_each against the stored elements (identity, order and all content), for six kinds of readers",
            minima: &[("evaluations", 200), ("blobs that are no data", 100), ("callbacks (path)", 1000)],
            directed: |_| 7,
            run: c11,
            ..BASE
        },
        Prop {
            id: "C12",
            rule: "distinct schedules of runs on several threads: which worker called map on which element at every change of worker; judged: number of map calls, exact multiset of mapped contents, sum/product/maximum, and the ledger of values (each consumed exactly once or returned)",
            shards: 4,
            minima: &[("evaluations", 100), ("runs that used several threads", 50), ("reduce calls", 1000)],
            directed: |_| 7,
            run: c12,
            ..BASE
        },
        Prop {
            id: "C13",
            rule: "damaged files by content; judged: for_each and par_map_reduce never succeed, for_each delivered exactly what comes before, error class",
            shards: 6,
            minima: &[("evaluations", 200), ("parallel errors", 100), ("sequential errors", 100)],
            run: c13,
            ..BASE
        },
        Prop {
            id: "C29",
            rule: "distinct orders in which threads completed their reads; judged: the result of every thread against the stored content",
            shards: 4,
            minima: &[("evaluations", 100), ("context switches between reads", 500)],
            directed: |_| 40,
            run: c29,
            ..BASE
        },
    ]
}
