//! C14, C15, C16, C31: the indexed reader.

use super::read::*;
use super::util::*;
use super::{Prop, BASE};
use crate::ctx::*;
use crate::ensure;
use crate::gen::{self, BlkP, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::collections::HashSet;
use std::io::{BufReader, Cursor, ErrorKind as IoKind, Read, Seek};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

type Groups = Vec<[Vec<El>; 4]>;

fn only(g: &Groups, keep: impl Fn(&El) -> bool) -> Groups {
    g.iter()
        .map(|k| {
            let f = |v: &Vec<El>| v.iter().filter(|e| keep(e)).cloned().collect::<Vec<El>>();
            [f(&k[0]), f(&k[1]), f(&k[2]), f(&k[3])]
        })
        .collect()
}
fn is_node(e: &El) -> bool {
    matches!(e.kind, Kind::Node | Kind::Dense)
}
fn len(g: &Groups) -> usize {
    g.iter().flatten().map(|v| v.len()).sum()
}

/// Nodes of the file, in order.
pub fn nodes_of(f: &FileM) -> Vec<El> {
    f.exp().into_iter().flatten().flatten().filter(is_node).collect()
}

/// What a way search delivers, in order.
pub fn deps_of(f: &FileM, filter: &dyn Fn(&El) -> bool) -> Vec<El> {
    let all: Vec<El> = f.exp().into_iter().flatten().flatten().collect();
    let ways: Vec<El> = all.iter().filter(|e| e.kind == Kind::Way && filter(e)).cloned().collect();
    let refs: HashSet<i64> = ways.iter().flat_map(|w| w.refs.iter().copied()).collect();
    let nodes: Vec<El> = all.iter().filter(|e| is_node(e) && refs.contains(&e.id)).cloned().collect();
    ways.into_iter().chain(nodes).collect()
}

/// Files whose ways reference stored nodes: id ranges of the blobs disjoint, overlapping, nested,
/// unsorted, negative, huge.
pub fn ix_file(r: &mut Rng, size: Size, pad: usize) -> FileM {
    if pad == 0 {
        if let Some(f) = gen::sized(r, size) {
            return f;
        }
    }
    let cfg = Cfg { mixed_groups: r.chance(1, 5), ..Cfg::sized(if size >= Size::Medium { Size::Small } else { Size::Tiny }) };
    let n = match size {
        Size::Tiny => 1 + r.us(4),
        Size::Small => 1 + r.us(10),
        _ => 5 + r.us(40),
    };
    let n = if size == Size::Medium { crate::dict::num(r, 6, 700).map_or(n, |x| x as usize) } else { n };
    // The ids that nodes have
    let base: i64 = *r.pick(&[0, 0, -50, 1_000_000, 1 << 33, -(1 << 40), i64::MAX - 5000, i64::MIN + 5000]);
    let mut used: Vec<i64> = vec![];
    let style = r.below(4);
    let mut blocks: Vec<(usize, BlockM)> = vec![];
    for i in 0..n {
        let mut b = gen::block_params(r, &cfg);
        if b.strings.len() < 3 {
            b.strings = vec![vec![], b"building".to_vec(), b"yes".to_vec(), b"k".to_vec()];
        }
        if pad > 0 {
            b.strings.push((0..pad).map(|_| b' ' + r.below(90) as u8).collect());
        }
        let p = BlkP::of(&b);
        let ng = 1 + r.us(3);
        let kinds = r.below(7);
        for _ in 0..ng {
            let k = match kinds {
                0 => 0,
                1 | 2 => 1,
                3 => 2,
                4 => 3,
                _ => r.us(5),
            };
            let cnt = crate::dict::num(r, 60, 700).map_or(1 + r.us(6), |x| x as usize);
            let mut g = GroupM::default();
            let mut id = |r: &mut Rng, j: usize| -> i64 {
                let x = match style {
                    0 => base.saturating_add((i * 100 + j) as i64),      // disjoint, ascending
                    1 => base + r.range(-30, 30),          // all overlapping
                    2 => base.saturating_add((n - i) as i64 * 50 + r.range(0, 70)), // descending, touching
                    _ => {
                        if r.chance(1, 5) {
                            r.mag(62)
                        } else {
                            base + r.range(-300, 300)
                        }
                    }
                };
                used.push(x);
                x
            };
            match k {
                0 => g.nodes = (0..cnt).map(|j| { let i = id(r, j); gen::node(r, i, &p, &cfg) }).collect(),
                1 => {
                    let mut d = gen::dense(r, cnt, &p, &cfg);
                    for (j, n) in d.nodes.iter_mut().enumerate() {
                        n.id = id(r, j);
                    }
                    g.dense = Some(d);
                }
                2 => g.ways = (0..cnt).map(|j| gen::way(r, (i * 10 + j) as i64, &p, &cfg, 0)).collect(),
                3 => g.rels = (0..cnt).map(|_| { let x = r.range(-60, 60); gen::rel(r, x, &p, &cfg, 5) }).collect(),
                _ => {
                    if r.chance(1, 2) {
                        g.changesets = vec![1, 2];
                    }
                }
            }
            b.groups.push(g);
        }
        blocks.push((i, b));
    }
    used.push(base);
    // References: stored nodes, their neighbours, nothing at all
    for (_, b) in blocks.iter_mut() {
        let p = BlkP::of(b);
        for g in b.groups.iter_mut() {
            for w in g.ways.iter_mut() {
                let c = *r.pick(&[0usize, 1, 2, 2, 3, 4, 6, 12]);
                let c = crate::dict::num(r, 60, 5000).map_or(c, |x| x as usize);
                let c = if pad == 0 && r.chance(1, 150) { 100 + r.us(5000) } else { c };
                w.refs = (0..c)
                    .map(|_| {
                        let x = *r.pick(&used);
                        match r.below(8) {
                            0 => x.saturating_add(1),
                            1 => x.saturating_sub(1),
                            2 => r.range(-100, 100),
                            _ => x,
                        }
                    })
                    .collect();
                if c > 2 && r.chance(1, 3) {
                    w.refs[c - 1] = w.refs[0];
                }
                // keep deltas within 64 bits
                let mut prev = 0i64;
                for x in w.refs.iter_mut() {
                    if x.checked_sub(prev).is_none() {
                        *x = prev;
                    }
                    prev = *x;
                }
                w.locs = (c > 0 && r.chance(1, 4)).then(|| (0..c).map(|_| (p.lat(r), p.lon(r))).collect());
                if r.chance(1, 3) {
                    w.tags.push((1, 2));
                }
            }
            // deltas of dense ids
            if let Some(d) = &mut g.dense {
                let mut prev = 0i64;
                for n in d.nodes.iter_mut() {
                    if n.id.checked_sub(prev).is_none() {
                        n.id = prev;
                    }
                    prev = n.id;
                }
            }
        }
    }
    let mut f = FileM::default();
    let bc = Cfg { compress: pad == 0, ..cfg.clone() };
    // No data
    let other = |r: &mut Rng| {
        let mut b = if r.chance(1, 2) { gen::header_blob(r, &bc) } else { gen::unknown_blob(r, &bc) };
        if pad > 0 && r.chance(3, 4) {
            let text: Vec<u8> = (0..pad).map(|_| b' ' + r.below(90) as u8).collect();
            b.payload = if b.ty == "OSMHeader" {
                Payload::Header(HeaderM { program: Some(String::from_utf8(text).unwrap()), ..Default::default() })
            } else {
                Payload::Content(text)
            };
        }
        b
    };
    for (_, b) in blocks {
        if r.chance(1, 8) {
            f.blobs.push(other(r));
        }
        f.blobs.push(gen::data_blob(r, &bc, b));
    }
    if r.chance(1, 3) {
        // ways first
        r.shuffle(&mut f.blobs);
    }
    if r.chance(1, 6) {
        let x = other(r);
        f.blobs.push(x);
    }
    f
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Index,
    Nodes,
    /// Way search with a filter
    Ways(u64),
}

pub fn op_any(r: &mut Rng) -> Op {
    match r.below(8) {
        0 => Op::Index,
        1..=3 => Op::Nodes,
        _ => Op::Ways(match r.below(5) {
            0 => 0,
            1 => 1,
            _ => r.u64(),
        }),
    }
}

/// The filter: a function of the way's content or of the number of earlier calls.
fn accept(f: u64, w: &El, calls: u64) -> bool {
    match f {
        0 => true,
        1 => false,
        _ => match f % 7 {
            0 => w.id & 1 == (f >> 8) as i64 & 1,
            1 => calls == (f >> 8) % 5,
            2 => w.tags.iter().any(|(k, v)| k == "building" && v == "yes"),
            3 => w.refs.len() as u64 > (f >> 8) % 4,
            4 => mix(w.id as u64 ^ f) % 5 == 0,
            5 => calls % 3 == 0,
            _ => mix(el_hash(w) ^ f) % 2 == 0,
        },
    }
}

pub struct Done {
    /// Elements delivered
    pub got: Vec<El>,
    /// Ways the filter saw, and its answer
    pub seen: Vec<(El, bool)>,
    pub res: std::result::Result<(), String>,
}

pub fn run_op<S: Read + Seek + Send>(ix: &mut IndexedReader<S>, op: Op) -> Done {
    let mut d = Done { got: vec![], seen: vec![], res: Ok(()) };
    let er = |e: Error| format!("{e:?}");
    d.res = match op {
        Op::Index => ix.create_index().map_err(er),
        Op::Nodes => ix.for_each_node(|e| d.got.push(ob(&e))).map_err(er),
        Op::Ways(f) => {
            let seen = &mut d.seen;
            let got = &mut d.got;
            ix.read_ways_and_deps(
                |w| {
                    let e = ob_way(w);
                    let a = accept(f, &e, seen.len() as u64);
                    seen.push((e, a));
                    a
                },
                |e| got.push(ob(e)),
            )
            .map_err(er)
        }
    };
    d
}

/// Is this the complete result of the operation?
pub fn judge(exp: &Groups, op: Op, d: &Done) -> std::result::Result<(), String> {
    match op {
        Op::Index => Ok(()),
        Op::Nodes => match_block(&only(exp, is_node), &d.got, facet::ALL),
        Op::Ways(_) => {
            let ways = only(exp, |e| e.kind == Kind::Way);
            let seen: Vec<El> = d.seen.iter().map(|x| x.0.clone()).collect();
            match_block(&ways, &seen, facet::ALL).map_err(|m| format!("calls of the filter: {m}"))?;
            if let Some(x) = d.got.iter().find(|e| e.kind == Kind::Rel) {
                return Err(format!("relation {} delivered", x.id));
            }
            // The delivered ways are those accepted, as seen by the filter and in that order.
            let acc: Vec<&El> = d.seen.iter().filter(|x| x.1).map(|x| &x.0).collect();
            let n = d.got.iter().take_while(|e| e.kind == Kind::Way).count();
            for (i, w) in acc.iter().enumerate() {
                if i >= n {
                    return Err(format!("{n} ways delivered before the nodes, {} accepted; missing way {}", acc.len(), w.id));
                }
                if let Some(m) = el_diff(w, &d.got[i], facet::ALL) {
                    return Err(format!("delivered way {i}: {m}"));
                }
            }
            if n > acc.len() {
                return Err(format!("{n} ways delivered, {} accepted; extra way {}", acc.len(), d.got[acc.len()].id));
            }
            let refs: HashSet<i64> = acc.iter().flat_map(|w| w.refs.iter().copied()).collect();
            let nodes = only(exp, |e| is_node(e) && refs.contains(&e.id));
            match_block(&nodes, &d.got[n..], facet::ALL).map_err(|m| format!("nodes referenced by the {} accepted ways: {m}", acc.len()))
        }
    }
}

fn history<S: Read + Seek + Send>(ctx: &mut Ctx, ix: &mut IndexedReader<S>, exp: &Groups, ops: &[Op], how: &str) -> R {
    for (i, op) in ops.iter().enumerate() {
        let d = run_op(ix, *op);
        let before = format!("{how}, {op:?} after {:?}", &ops[..i]);
        d.res.as_ref().map_err(|x| format!("{before}: well-formed file: {x}"))?;
        judge(exp, *op, &d).map_err(|m| format!("{before}: {m}"))?;
        ctx.eval();
        match op {
            Op::Nodes => ctx.add("nodes delivered by node iteration", d.got.len() as u64),
            Op::Ways(_) => {
                let w = d.got.iter().filter(|e| e.kind == Kind::Way).count() as u64;
                ctx.add("filter calls", d.seen.len() as u64);
                ctx.add("ways delivered", w);
                ctx.add("referenced nodes delivered", d.got.len() as u64 - w);
            }
            Op::Index => ctx.add("explicit index creations", 1),
        }
        if i > 0 {
            ctx.add("operations on a used reader", 1);
        }
    }
    Ok(())
}

fn indexed(ctx: &mut Ctx, case: u64, r: &mut Rng, ops: Vec<Op>) -> R {
    let f = match case {
        0 => many_blobs(r, 3000),
        1 => FileM::default(),
        _ => {
            let size = *r.pick(&[Size::Tiny, Size::Small, Size::Small, Size::Medium]);
            if r.chance(1, 5) {
                let mut c = Cfg::any(r);
                c.connected = r.chance(1, 2);
                gen::file(r, &c)
            } else {
                ix_file(r, size, 0)
            }
        }
    };
    let e = encode(&f, r);
    let exp = f.exp();
    let how = r.below(5);
    match how {
        0 => {
            let p = ctx.file("ix.pbf", &e.bytes)?;
            let mut ix = IndexedReader::from_path(&p).map_err(|x| format!("{x:?}"))?;
            history(ctx, &mut ix, &exp, &ops, "from_path")?;
        }
        1 => {
            // positioned somewhere
            let mut c = Cursor::new(&e.bytes[..]);
            let at = match r.below(4) {
                0 if !e.lay.is_empty() => r.pick(&e.lay).off,
                1 => e.bytes.len() as u64,
                2 => e.bytes.len() as u64 + r.below(1000),
                _ => r.below(e.bytes.len() as u64 + 1),
            };
            c.set_position(at);
            let mut ix = IndexedReader::new(c).map_err(|x| format!("{x:?}"))?;
            history(ctx, &mut ix, &exp, &ops, &format!("reader at position {at}"))?;
            ctx.add("readers positioned elsewhere", (at > 0) as u64);
        }
        2 => {
            let s = Src::bytes(&e.bytes).chunk(chunk_any(r, &e.lay), r.u64());
            let mut ix = IndexedReader::new(s).map_err(|x| format!("{x:?}"))?;
            history(ctx, &mut ix, &exp, &ops, "fragmenting reader")?;
        }
        3 => {
            let s = Src::bytes(&e.bytes).chunk(chunk_any(r, &e.lay), r.u64());
            let mut ix = IndexedReader::new(BufReader::with_capacity(*r.pick(&[1usize, 5, 64, 1000]), s)).map_err(|x| format!("{x:?}"))?;
            history(ctx, &mut ix, &exp, &ops, "buffered reader")?;
        }
        _ => {
            let mut ix = IndexedReader::new(Cursor::new(&e.bytes[..])).map_err(|x| format!("{x:?}"))?;
            history(ctx, &mut ix, &exp, &ops, "cursor")?;
        }
    }
    let n = len(&only(&exp, is_node));
    ctx.max("nodes in a file", n as u64);
    ctx.max("blobs in a file", f.blobs.len() as u64);
    if n > 0 && ops.len() > 1 {
        ctx.nontrivial(mix(content_hash(&exp) ^ hash_bytes(format!("{ops:?}").as_bytes())));
    }
    ctx.sample(|| format!("{ops:?} on {}", gen::describe(&f, &e)));
    Ok(())
}

pub fn c14(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let n = 1 + r.us(6);
    let mut ops: Vec<Op> = (0..n).map(|_| op_any(r)).collect();
    ops.push(Op::Nodes);
    if r.chance(1, 2) {
        ops.push(Op::Nodes);
    }
    indexed(ctx, case, r, ops)
}

pub fn c15(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let n = r.us(6);
    let mut ops: Vec<Op> = (0..n).map(|_| op_any(r)).collect();
    ops.push(Op::Ways(if r.chance(1, 3) { 0 } else { r.u64() }));
    ops.push(Op::Ways(if r.chance(1, 3) { 0 } else { r.u64() }));
    indexed(ctx, case, r, ops)
}

// ---------------------------------------------------------------------------------------------
// C16

const KINDS: &[IoKind] = &[IoKind::Other, IoKind::UnexpectedEof, IoKind::WouldBlock, IoKind::TimedOut, IoKind::PermissionDenied, IoKind::InvalidData, IoKind::Interrupted];

/// Content that is damaged until it is repaired.
struct Repairable {
    bad: Vec<u8>,
    good: Arc<Vec<u8>>,
    repaired: AtomicBool,
}
impl Content for Repairable {
    fn len(&self) -> u64 {
        self.good.len() as u64
    }
    fn read_at(&self, pos: u64, buf: &mut [u8]) {
        let v: &[u8] = if self.repaired.load(SeqCst) { &self.good } else { &self.bad };
        let p = pos as usize;
        buf.copy_from_slice(&v[p..p + buf.len()]);
    }
}

fn ops_total(e: &Enc, ops: &[Op], ch: &Chunk, seed: u64, buf: usize) -> R<u64> {
    let s = Src::bytes(&e.bytes).chunk(ch.clone(), seed);
    let st = s.stats();
    if buf == 0 {
        let mut ix = IndexedReader::new(s).map_err(|x| format!("{x:?}"))?;
        for o in ops {
            run_op(&mut ix, *o).res.map_err(|x| format!("intact: {x}"))?;
        }
    } else {
        let mut ix = IndexedReader::new(BufReader::with_capacity(buf, s)).map_err(|x| format!("{x:?}"))?;
        for o in ops {
            run_op(&mut ix, *o).res.map_err(|x| format!("intact: {x}"))?;
        }
    }
    let n = st.lock().unwrap().ops;
    Ok(n)
}

/// Runs the operations; every one that claims success must be complete. A failed one is repeated
/// once the source works.
fn faulty<S: Read + Seek + Send>(ctx: &mut Ctx, ix: &mut IndexedReader<S>, exp: &Groups, ops: &[Op], st: &std::sync::Mutex<St>, once: bool, what: &str, r: &mut Rng) -> R {
    let mut failed = vec![];
    for (i, op) in ops.iter().enumerate() {
        let before = st.lock().unwrap().faults;
        let d = run_op(ix, *op);
        let hit = st.lock().unwrap().faults > before;
        let ctxt = format!("{what}: operation {i} {op:?} of {ops:?} (failed before: {failed:?})");
        match &d.res {
            Ok(()) => {
                judge(exp, *op, &d).map_err(|m| format!("{ctxt} succeeds, but is incomplete or wrong: {m}"))?;
                ctx.add("complete results after a failure", !failed.is_empty() as u64);
            }
            Err(x) => {
                ensure!(hit || (!once && !failed.is_empty()), "{ctxt} fails without a fault: {x}");
                failed.push(i);
                if once || r.chance(1, 2) {
                    st.lock().unwrap().fault = None; // the source works again
                    let d = run_op(ix, *op);
                    d.res.as_ref().map_err(|y| format!("{ctxt}: failed with {x}; repeated on the working source it fails with {y}"))?;
                    judge(exp, *op, &d).map_err(|m| format!("{ctxt}: repeated on the working source: {m}"))?;
                    ctx.add("repeated after a failure", 1);
                } else {
                    ctx.add("went on with a failing source", 1);
                }
            }
        }
        ctx.eval();
    }
    // At the end everything works.
    st.lock().unwrap().fault = None;
    for op in [Op::Nodes, Op::Ways(0)] {
        let d = run_op(ix, op);
        d.res.as_ref().map_err(|y| format!("{what}: {op:?} after {ops:?} on the working source fails with {y}"))?;
        judge(exp, op, &d).map_err(|m| format!("{what}: {op:?} after {ops:?} (failed: {failed:?}): {m}"))?;
        ctx.eval();
    }
    Ok(())
}

pub fn c16(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let size = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small]);
    let f = ix_file(r, size, 0);
    let e = encode(&f, r);
    let exp = f.exp();
    let n = 1 + r.us(4);
    let ops: Vec<Op> = (0..n).map(|_| op_any(r)).collect();
    if case % 3 == 2 {
        // Damage in the file
        let datas: Vec<usize> = (0..f.blobs.len()).filter(|i| f.blobs[*i].is_data()).collect();
        let Some(&i) = datas.get(r.us(datas.len().max(1))) else { return Ok(()) };
        let l = e.lay[i];
        let mut bad = (*e.bytes).clone();
        // Every byte 0xff: no protobuf message starts like that.
        let payload = r.chance(2, 3);
        if payload {
            if l.data == 0 {
                return Ok(());
            }
            for p in l.data_off()..l.end() {
                bad[p as usize] = 0xff;
            }
        } else {
            for p in l.off..l.data_off() {
                bad[p as usize] = 0xff;
            }
        }
        let c = Arc::new(Repairable { bad, good: e.bytes.clone(), repaired: AtomicBool::new(false) });
        let mut ix = IndexedReader::new(Src::new(c.clone()).chunk(chunk_any(r, &e.lay), r.u64())).map_err(|x| format!("{x:?}"))?;
        let what = format!("blob {i} of {} damaged ({})", f.blobs.len(), if payload { "payload" } else { "header" });
        for (k, op) in ops.iter().enumerate() {
            let d = run_op(&mut ix, *op);
            let fine = payload && *op == Op::Index;
            ensure!(fine || d.res.is_err(), "{what}: operation {k} {op:?} of {ops:?} succeeds with {} elements", d.got.len());
            ctx.eval();
            ctx.add("failures because of damage", d.res.is_err() as u64);
        }
        c.repaired.store(true, SeqCst);
        for (k, op) in ops.iter().chain(&[Op::Nodes, Op::Ways(0)]).enumerate() {
            let d = run_op(&mut ix, *op);
            d.res.as_ref().map_err(|x| format!("{what}: repaired, but {op:?} after {ops:?} fails: {x}"))?;
            judge(&exp, *op, &d).map_err(|m| format!("{what}: repaired, operation {k} {op:?} after {ops:?}: {m}"))?;
            ctx.eval();
            ctx.add("complete results after repair", 1);
        }
        ctx.nontrivial(mix(content_hash(&exp) ^ i as u64 ^ hash_bytes(format!("{ops:?}{payload}").as_bytes())));
        return Ok(());
    }
    let ch = match r.below(3) {
        0 => Chunk::Full,
        1 => Chunk::Random(50),
        _ => Chunk::Random(1000),
    };
    let seed = r.u64();
    let buf = if r.chance(1, 2) { 0 } else { *r.pick(&[1usize, 16, 100, 8192]) };
    let total = ops_total(&e, &ops, &ch, seed, buf)?;
    ctx.max("source operations of a history", total);
    let points: Vec<u64> = if total <= 150 { (0..total).collect() } else { (0..60).map(|_| r.below(total)).collect() };
    if total <= 150 {
        ctx.add("histories with every operation failed", 1);
    }
    for at in points {
        let kind = *r.pick(KINDS);
        let persistent = kind != IoKind::Interrupted && r.chance(1, 2);
        let s = Src::bytes(&e.bytes).chunk(ch.clone(), seed).fault(Fault { at, kind, persistent });
        let st = s.stats();
        let what = format!("{kind:?} at source operation {at} of {total} ({}, buffer {buf})", if persistent { "persistent" } else { "once" });
        // Operation 0 is the query of the position by the constructor
        if buf == 0 {
            match IndexedReader::new(s) {
                Ok(mut ix) => faulty(ctx, &mut ix, &exp, &ops, &st, !persistent, &what, r)?,
                Err(_) => ctx.add("constructor failed", 1),
            }
        } else {
            match IndexedReader::new(BufReader::with_capacity(buf, s)) {
                Ok(mut ix) => faulty(ctx, &mut ix, &exp, &ops, &st, !persistent, &what, r)?,
                Err(_) => ctx.add("constructor failed", 1),
            }
        }
        ctx.add("faults injected", st.lock().unwrap().faults.min(1));
        ctx.nontrivial(mix(content_hash(&exp) ^ mix(at) ^ hash_bytes(format!("{ops:?}{kind:?}").as_bytes())));
    }
    ctx.sample(|| format!("faults at every operation of {ops:?} on {}", gen::describe(&f, &e)));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C31

/// How often a payload was read: by a byte deep inside it, beyond any reasonable read-ahead.
fn payload_reads(t: &[(u64, u64)], l: &Lay) -> usize {
    let p = l.data_off() + l.data * 3 / 4;
    t.iter().filter(|(a, b)| *a <= p && p < *b).count()
}

fn c31(ctx: &mut Ctx, _case: u64, r: &mut Rng) -> R {
    const PAD: usize = 90_000;
    let size = *r.pick(&[Size::Tiny, Size::Small]);
    let f = ix_file(r, size, PAD);
    let e = encode(&f, r);
    let exp = f.exp();
    let data: Vec<usize> = (0..f.blobs.len()).filter(|i| f.blobs[*i].is_data() && e.lay[*i].data > 80_000).collect();
    // per blob: node id range, whether it holds ways
    let info: Vec<(Option<(i64, i64)>, bool)> = data
        .iter()
        .map(|i| {
            let b = f.blobs[*i].block().unwrap();
            let x: Vec<El> = b.exp().into_iter().flatten().flatten().collect();
            let ids: Vec<i64> = x.iter().filter(|e| is_node(e)).map(|e| e.id).collect();
            let range = ids.iter().min().map(|a| (*a, *ids.iter().max().unwrap()));
            (range, x.iter().any(|e| e.kind == Kind::Way))
        })
        .collect();
    let ch = match r.below(3) {
        0 => Chunk::Full,
        1 => Chunk::Random(9000),
        _ => Chunk::Max(4096),
    };
    let s = Src::bytes(&e.bytes).chunk(ch, r.u64()).record();
    let st = s.stats();
    let mut ix = IndexedReader::new(s).map_err(|x| format!("{x:?}"))?;
    let n = 2 + r.us(5);
    let mut ops: Vec<Op> = (0..n).map(|_| op_any(r)).collect();
    if r.chance(1, 2) {
        ops.insert(0, Op::Index);
    }
    let mut known = vec![false; data.len()];
    let mut known_other = vec![false; f.blobs.len()];
    let mut skipped = 0u64;
    for (k, op) in ops.iter().enumerate() {
        st.lock().unwrap().touched.clear();
        let d = run_op(&mut ix, *op);
        let what = format!("operation {k} {op:?} of {ops:?}");
        d.res.as_ref().map_err(|x| format!("{what}: well-formed file: {x}"))?;
        judge(&exp, *op, &d).map_err(|m| format!("{what}: {m}"))?;
        let touched = st.lock().unwrap().touched.clone();
        let refs: HashSet<i64> = d.seen.iter().filter(|x| x.1).flat_map(|x| x.0.refs.iter().copied()).collect();
        let reads: Vec<usize> = data.iter().map(|i| payload_reads(&touched, &e.lay[*i])).collect();
        if *op == Op::Index {
            for (j, i) in data.iter().enumerate() {
                ensure!(reads[j] == 0, "{what}: creating the index reads the payload of blob {i}");
            }
            for (i, l) in e.lay.iter().enumerate() {
                if l.data > 40_000 {
                    ensure!(payload_reads(&touched, l) == 0, "{what}: creating the index reads the payload of blob {i}");
                }
            }
            ctx.add("index creations without payload reads", 1);
        } else {
            for (i, l) in e.lay.iter().enumerate() {
                if l.data > 40_000 && !f.blobs[i].is_data() {
                    let n = payload_reads(&touched, l);
                    ensure!(n <= 1 && (n == 0 || !known_other[i]), "{what}: reads the payload of blob {i} ({:?}) {n} times, before: {}", f.blobs[i].ty, known_other[i]);
                    known_other[i] |= n > 0;
                    ctx.add("payloads of header and unknown blobs left alone", (n == 0) as u64);
                }
            }
            for (j, i) in data.iter().enumerate() {
                let (range, ways) = info[j];
                let needed = match op {
                    Op::Nodes => range.is_some(),
                    _ => ways || range.map_or(false, |(a, b)| refs.iter().any(|x| a <= *x && *x <= b)),
                };
                if !needed {
                    if known[j] {
                        ensure!(reads[j] == 0, "{what}: reads the payload of blob {i}, although an earlier operation showed it to be irrelevant (node ids {range:?}, ways: {ways})");
                        skipped += 1;
                    } else {
                        ensure!(reads[j] <= 1, "{what}: reads the payload of irrelevant blob {i} {} times", reads[j]);
                    }
                }
                ctx.add("payload reads observed", reads[j] as u64);
            }
        }
        for j in 0..data.len() {
            known[j] |= reads[j] > 0;
        }
        ctx.eval();
    }
    ctx.add("irrelevant payloads skipped", skipped);
    if skipped > 0 {
        ctx.nontrivial(mix(content_hash(&exp) ^ hash_bytes(format!("{ops:?}").as_bytes())));
    }
    ctx.sample(|| format!("{ops:?} on {} big blobs: node ranges and ways {info:?}", data.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "pairs of file content and operation history (at least 2 operations, at least one node); judged: sequence of delivered nodes against the stored ones after every operation",
            minima: &[("evaluations", 300), ("operations on a used reader", 100), ("nodes delivered by node iteration", 1000)],
            directed: |_| 2,
            run: c14,
            ..BASE
        },
        Prop {
            id: "C15",
            rule: "pairs of file content and operation history (at least 2 operations, at least one node); judged: calls of the filter, delivered ways and delivered nodes against the model",
            minima: &[("evaluations", 300), ("filter calls", 1000), ("referenced nodes delivered", 1000), ("operations on a used reader", 100)],
            directed: |_| 2,
            run: c15,
            ..BASE
        },
        Prop {
            id: "C16",
            rule: "(file, history, failing source operation, kind of failure); judged: every operation that claims success delivered the complete result, and repeating after the source works again succeeds",
            minima: &[("evaluations", 500), ("faults injected", 200), ("repeated after a failure", 100), ("complete results after repair", 50)],
            run: c16,
            ..BASE
        },
        Prop {
            id: "C31",
            rule: "(file, history) in which an irrelevant payload was skipped; judged: byte ranges requested from the source, and the result of every operation",
            minima: &[("evaluations", 100), ("irrelevant payloads skipped", 50), ("index creations without payload reads", 20)],
            run: c31,
            ..BASE
        },
    ]
}
