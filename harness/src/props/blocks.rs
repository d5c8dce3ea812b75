//! C03..C10, C26, C27: what a decoded block says.

use super::util::*;
use super::{Prop, BASE};
use crate::ctx::*;
use crate::ensure;
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::rng::*;
use osmpbf::*;
use std::fmt::Debug;
use std::io::Cursor;
use std::sync::Arc;

/// Lengths around which directed cases place lists.
const LENGTHS: &[usize] = &[
    0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2001, 4095, 4096, 4097, 8000,
    8001, 10000, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 100000, 131072, 131073,
];

/// Reads the file's blocks and compares all traversals.
fn check_file(ctx: &mut Ctx, r: &mut Rng, f: &FileM, facets: u32, what: &str) -> R {
    let e = encode(f, r);
    let exp: Vec<Vec<[Vec<El>; 4]>> = f.blobs.iter().filter_map(|b| b.block()).map(|b| b.exp()).collect();
    let route = r.us(ROUTES.len());
    let blocks = read_blocks(ctx, &e, route, r)?;
    ctx.eval();
    ensure!(blocks.len() == exp.len(), "{} data blocks read, {} stored", blocks.len(), exp.len());
    let mut h = 0;
    for (i, (b, x)) in blocks.iter().zip(&exp).enumerate() {
        let at = |m: String| Fail::from(format!("{what}: block {i} via {}: {m}", ROUTES[route]));
        let n: usize = x.iter().flatten().map(|v| v.len()).sum();
        count_kinds(ctx, x);
        // All three traversals on small blocks, one of them on large ones.
        let pick = if n < 300 { 3 } else { r.us(3) };
        if pick == 3 || pick == 0 {
            match_block(x, &via_elements(b), facets).map_err(|m| at(format!("elements(): {m}")))?;
        }
        if pick == 3 || pick == 1 {
            match_block(x, &via_callback(b), facets).map_err(|m| at(format!("for_each_element: {m}")))?;
        }
        if pick == 3 || pick == 2 {
            match_groups(x, &via_groups(b), facets).map_err(|m| at(format!("groups(): {m}")))?;
        }
        h = mix(h ^ content_hash(x));
    }
    if f.count() > 0 {
        ctx.nontrivial(h);
        ctx.sample(|| format!("{what}, read via {}: {}", ROUTES[route], gen::describe(f, &e)));
    }
    Ok(())
}

fn blocks_file(r: &mut Rng, cfg: &Cfg) -> FileM {
    if let Some(f) = gen::sized(r, cfg.size) {
        return f;
    }
    let n = match cfg.size {
        Size::Large => 1,
        _ => 1 + r.us(3),
    };
    FileM { blobs: (0..n).map(|_| { let b = gen::block(r, cfg); gen::data_blob(r, cfg, b) }).collect() }
}

/// Sizes of string tables around which references must not be mixed up.
const TABLES: &[usize] = &[128, 129, 256, 257, 32768, 32769, 65536, 65537, 70000, 131073, 200_000];

/// Replaces the string table by one with n entries, all different.
fn big_table(b: &mut BlockM, n: usize) {
    b.strings = (0..n).map(|k| if k == 0 { vec![] } else { format!("t{k}").into_bytes() }).collect();
}

/// An index near the end of the table, at a power of two, or anywhere.
fn high_sid(r: &mut Rng, n: usize) -> u32 {
    match r.below(3) {
        0 => (n - 1 - r.us(n.min(3))) as u32,
        1 => (*r.pick(&[127i64, 128, 255, 256, 32767, 32768, 65535, 65536, 131072])).min(n as i64 - 1) as u32,
        _ => r.us(n) as u32,
    }
}

fn one_group(b: &mut BlockM, g: GroupM) {
    b.groups.push(g);
}

// ---------------------------------------------------------------------------------------------
// C04

fn c04(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let i = case as usize;
    if i < LENGTHS.len() * 2 {
        // Directed: group sizes at boundaries, dense and plain, followed by another group.
        let n = LENGTHS[i / 2].min(if i % 2 == 0 { 200_000 } else { 20_000 });
        let cfg = Cfg { plain_strings: true, ..Cfg::sized(Size::Tiny) };
        let mut b = gen::block_params(r, &cfg);
        let p = gen::BlkP::of(&b);
        for n in [n, 3] {
            let mut ids = gen::IdGen::new(r, &cfg);
            let mut g = GroupM::default();
            if i % 2 == 0 {
                g.dense = Some(gen::dense(r, n, &p, &cfg));
            } else {
                g.nodes = (0..n).map(|_| { let id = ids.next(r); gen::node(r, id, &p, &cfg) }).collect();
            }
            one_group(&mut b, g);
        }
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return check_file(ctx, r, &f, facet::ID | facet::COORD, "node group of directed size");
    }
    let i = i - LENGTHS.len() * 2;
    if i < C04_EXTREME.len() * 2 {
        // Directed: extreme ids and values of single nodes.
        let (gran, off, raw, id) = C04_EXTREME[i / 2];
        let mut b = BlockM { strings: vec![vec![]], gran, lat_off: off, lon_off: off.map(|x| -x), ..Default::default() };
        let n = |id, lat, lon| NodeM { id, lat, lon, tags: vec![], info: None };
        let nodes = vec![n(id, raw, -raw), n(id.wrapping_neg(), 0, raw), n(1, -raw, 0)];
        let mut g = GroupM::default();
        if i % 2 == 0 {
            g.nodes = nodes;
        } else {
            g.dense = Some(DenseM { nodes, with_kv: false, info: DInfo::None });
        }
        b.groups = vec![g.clone(), g];
        let f = FileM { blobs: vec![BlobM::data(b)] };
        return check_file(ctx, r, &f, facet::ID | facet::COORD, "extreme node values");
    }
    let mut cfg = Cfg::any(r).kinds([2, 4, 0, 0]);
    if r.chance(1, 6) {
        cfg.kinds = [1, 1, 1, 1];
        cfg.mixed_groups = true;
    }
    let f = blocks_file(r, &cfg);
    check_file(ctx, r, &f, facet::ID | facet::COORD, "random nodes")
}

const MAXN: i64 = (1 << 62) - 1;
/// granularity, offset, raw value, id (differences of neighbours stay within 64 bits)
const C04_EXTREME: &[(Option<i32>, Option<i64>, i64, i64)] = &[
    (None, None, 900_000_000, 1),
    (None, None, 1_800_000_000, (1 << 31) - 1),
    (None, None, -1_800_000_000, 1 << 31),
    (None, None, (1 << 31) - 1, 1 << 32),
    (None, None, 1 << 31, (1 << 53) + 1),
    (None, None, (1 << 32) + 1, MAXN),
    (None, Some(0), 46_116_860_184_273_879, -MAXN),
    (Some(1), None, MAXN, MAXN),
    (Some(1), Some(MAXN), MAXN, -1),
    (Some(1), Some(-MAXN), -MAXN, 0),
    (Some(1), Some(180_000_000_000), 1, 5),
    (Some(100), Some(99), 0, 5),
    (Some(100), Some(-99), 0, 5),
    (Some(100), Some(50), -1, 5),
    (Some(7), Some(3), -1, 5),
    (Some(99), Some(1), 1, 6),
    (Some(1000), Some(999), -123_456, 7),
    (Some(i32::MAX), None, 83, 8),
    (Some(i32::MAX), Some(-(1 << 40)), 4_294_967, 8),
    (Some(1_000_000), Some(17), 180_000, 9),
    (Some(10), Some(-1 << 62), 1 << 58, 10),
    (Some(3), Some(214_748_364_700), -1, 11),
    (Some(1), Some(214_748_364_799), 0, 12),
    (Some(1), Some(-214_748_364_899), 0, 12),
];

// ---------------------------------------------------------------------------------------------
// C05

fn c05(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let i = case as usize;
    let nl = LENGTHS.len() - 6;
    if i < nl * 4 {
        // Directed: one element with many tags between neighbours with none/few, in each kind.
        let n = LENGTHS[i / 4];
        let cfg = Cfg::sized(Size::Tiny);
        let mut b = BlockM::default();
        let nstr = 3 + *r.pick(&[1usize, 5, 125, 126, 127, 253, 254, 16381, 65530, 65534, 70000]);
        b.strings.push(vec![]);
        for k in 1..nstr {
            b.strings.push(format!("t{k}").into_bytes());
        }
        let p = gen::BlkP::of(&b);
        let zero = i % 4 != 1 && r.chance(1, 2);
        if zero {
            b.strings[0] = b"zero".to_vec();
        }
        let sid = |r: &mut Rng| if zero && r.chance(1, 6) { 0 } else { gen::sid(r, nstr).unwrap() };
        let t = |r: &mut Rng, n: usize| -> TagsM { (0..n).map(|_| (sid(r), sid(r))).collect() };
        let mut lens = vec![0, n, 0, 1, n.min(300), 0];
        r.shuffle(&mut lens);
        let mut g = GroupM::default();
        match i % 4 {
            0 => g.nodes = lens.iter().map(|l| { let mut x = gen::node(r, 5, &p, &cfg); x.tags = t(r, *l); x }).collect(),
            1 => {
                let mut d = gen::dense(r, lens.len(), &p, &cfg);
                d.with_kv = true;
                for (x, l) in d.nodes.iter_mut().zip(&lens) {
                    x.tags = t(r, *l);
                }
                g.dense = Some(d);
            }
            2 => g.ways = lens.iter().map(|l| { let mut x = gen::way(r, 5, &p, &cfg, 3); x.tags = t(r, *l); x }).collect(),
            _ => g.rels = lens.iter().map(|l| { let mut x = gen::rel(r, 5, &p, &cfg, 3); x.tags = t(r, *l); x }).collect(),
        }
        b.groups = vec![g.clone(), g];
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return tags_file(ctx, r, &f, "tag list of directed length");
    }
    if i < nl * 4 + 3 {
        // Very long strings.
        let cfg = Cfg::sized(Size::Tiny);
        let n = [65535usize, 65536, 3_000_000][i - nl * 4];
        let strings = vec![vec![], vec![b'k'; n], "ü東x".repeat(n / 6).into_bytes(), b"b".to_vec()];
        let tags = vec![(1, 2), (2, 1), (3, 1), (2, 3)];
        let mut b = BlockM { strings, ..Default::default() };
        let nodes = vec![NodeM { id: 1, lat: 0, lon: 0, tags, info: None }];
        b.groups = vec![GroupM { dense: Some(DenseM { nodes: nodes.clone(), with_kv: true, info: DInfo::None }), ..Default::default() }, GroupM { nodes, ..Default::default() }];
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return tags_file(ctx, r, &f, "long strings");
    }
    let mut cfg = Cfg::any(r).kinds([2, 4, 2, 2]);
    cfg.mixed_groups = r.chance(1, 6);
    let f = blocks_file(r, &cfg);
    tags_file(ctx, r, &f, "random tags")
}

fn tags_file(ctx: &mut Ctx, r: &mut Rng, f: &FileM, what: &str) -> R {
    check_file(ctx, r, f, facet::ID | facet::TAGS, what)?;
    // The raw string table, byte for byte.
    let e = encode(f, r);
    let blocks = read_blocks(ctx, &e, 0, r)?;
    for (b, m) in blocks.iter().zip(f.blobs.iter().filter_map(|b| b.block())) {
        ensure!(b.raw_stringtable() == &m.strings[..], "raw string table: {} entries, stored {} (or different bytes)", b.raw_stringtable().len(), m.strings.len());
        ctx.add("string table entries compared", m.strings.len() as u64);
        for g in b.groups() {
            for n in g.nodes() {
                ensure!(n.raw_stringtable() == &m.strings[..], "raw string table of a node differs");
                break;
            }
            for n in g.ways() {
                ensure!(n.raw_stringtable() == &m.strings[..], "raw string table of a way differs");
                break;
            }
            for n in g.relations() {
                ensure!(n.raw_stringtable() == &m.strings[..], "raw string table of a relation differs");
                break;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C06

fn c06(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let i = case as usize;
    if i < 64 * 4 {
        // Directed: every subset of plain metadata fields, for nodes, ways and relations, and each
        // dense mode.
        let mask = i / 4;
        let cfg = Cfg::sized(Size::Small);
        let mut b = gen::block_params(r, &cfg);
        if b.strings.is_empty() {
            b.strings = vec![vec![], b"user".to_vec(), "üser".into()];
        }
        let p = gen::BlkP::of(&b);
        let mk = |r: &mut Rng, mask: usize| -> InfoM {
            let f = gen::info(r, &p, true);
            InfoM {
                version: f.version.filter(|_| mask & 1 != 0),
                timestamp: f.timestamp.filter(|_| mask & 2 != 0),
                changeset: f.changeset.filter(|_| mask & 4 != 0),
                uid: f.uid.filter(|_| mask & 8 != 0),
                user_sid: f.user_sid.filter(|_| mask & 16 != 0),
                visible: (mask & 32 != 0).then(|| r.chance(1, 2)),
            }
        };
        let mut g = GroupM::default();
        let n = 2 + r.us(4);
        match i % 4 {
            0 => g.nodes = (0..n).map(|k| { let mut x = gen::node(r, k as i64, &p, &cfg); x.info = (k != 1).then(|| mk(r, mask)); x }).collect(),
            1 => g.ways = (0..n).map(|k| { let mut x = gen::way(r, k as i64, &p, &cfg, 3); x.info = (k != 1).then(|| mk(r, mask)); x }).collect(),
            2 => g.rels = (0..n).map(|k| { let mut x = gen::rel(r, k as i64, &p, &cfg, 3); x.info = (k != 1).then(|| mk(r, mask)); x }).collect(),
            _ => {
                let n = LENGTHS[mask.min(48)].min(20000);
                let mut d = gen::dense(r, n, &p, &cfg);
                d.info = [DInfo::None, DInfo::NoVisible, DInfo::Visible][mask % 3];
                for x in &mut d.nodes {
                    x.info = Some(gen::info(r, &p, true));
                }
                g.dense = Some(d);
            }
        }
        b.groups.push(g);
        b.groups.push(gen::group(r, &p, &cfg));
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return check_file(ctx, r, &f, facet::ID | facet::INFO, "metadata subset");
    }
    let i = i - 64 * 4;
    if i < TABLES.len() {
        // Users anywhere in a large table.
        let n = TABLES[i];
        let cfg = Cfg::sized(Size::Tiny);
        let mut b = gen::block_params(r, &cfg);
        big_table(&mut b, n);
        let p = gen::BlkP::of(&b);
        let mk = |r: &mut Rng| -> Option<InfoM> {
            let mut f = gen::info(r, &p, true);
            f.user_sid = Some(high_sid(r, n));
            Some(f)
        };
        let mut d = gen::dense(r, 60, &p, &cfg);
        d.info = *r.pick(&[DInfo::NoVisible, DInfo::Visible]);
        d.nodes.iter_mut().for_each(|x| x.info = mk(r));
        b.groups = vec![
            GroupM { nodes: (0..20).map(|k| { let mut x = gen::node(r, k, &p, &cfg); x.info = mk(r); x }).collect(), ..Default::default() },
            GroupM { dense: Some(d), ..Default::default() },
            GroupM { ways: (0..20).map(|k| { let mut x = gen::way(r, k, &p, &cfg, 3); x.info = mk(r); x }).collect(), ..Default::default() },
            GroupM { rels: (0..20).map(|k| { let mut x = gen::rel(r, k, &p, &cfg, 3); x.info = mk(r); x }).collect(), ..Default::default() },
        ];
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return check_file(ctx, r, &f, facet::ID | facet::INFO, "users in a table of directed size");
    }
    let mut cfg = Cfg::any(r).kinds([2, 4, 1, 1]);
    cfg.mixed_groups = r.chance(1, 6);
    let f = blocks_file(r, &cfg);
    check_file(ctx, r, &f, facet::ID | facet::INFO, "random metadata")
}

// ---------------------------------------------------------------------------------------------
// C07, C08

fn c07(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let i = case as usize;
    if i < LENGTHS.len() * 2 {
        let n = LENGTHS[i / 2];
        let cfg = Cfg::sized(Size::Tiny);
        let mut b = gen::block_params(r, &cfg);
        let p = gen::BlkP::of(&b);
        let mut ws = vec![];
        for n in [1, n, 2, 0, n.min(1000)] {
            let mut w = gen::way(r, r.clone().mag(63), &p, &cfg, 0);
            let mut ids = gen::IdGen::new(r, &cfg);
            w.refs = (0..n).map(|_| ids.next(r)).collect();
            w.locs = (i % 2 == 0).then(|| (0..n).map(|_| (p.lat(r), p.lon(r))).collect());
            ws.push(w);
        }
        b.groups.push(GroupM { ways: ws, ..Default::default() });
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return check_file(ctx, r, &f, facet::ID | facet::REFS | facet::LOCS, "way of directed length");
    }
    let i = i - LENGTHS.len() * 2;
    if i < C04_EXTREME.len() {
        let (gran, off, raw, id) = C04_EXTREME[i];
        let mut b = BlockM { strings: vec![vec![]], gran, lat_off: off, lon_off: off.map(|x| -x), ..Default::default() };
        let w = |id| WayM { id, tags: vec![], info: None, refs: vec![id, 0, -id, id / 2], locs: Some(vec![(raw, -raw), (0, raw), (-raw, 0), (raw / 2, 1)]) };
        let id2 = *r.pick(&[i64::MAX, i64::MIN + 1, 0]);
        b.groups = vec![GroupM { ways: vec![w(id), WayM { id: id2, ..w(id) }], ..Default::default() }];
        let f = FileM { blobs: vec![BlobM::data(b)] };
        return check_file(ctx, r, &f, facet::ID | facet::REFS | facet::LOCS, "extreme way values");
    }
    let mut cfg = Cfg::any(r).kinds([0, 0, 1, 0]);
    if r.chance(1, 6) {
        cfg.kinds = [1, 1, 3, 1];
        cfg.mixed_groups = true;
    }
    let f = blocks_file(r, &cfg);
    check_file(ctx, r, &f, facet::ID | facet::REFS | facet::LOCS, "random ways")
}

fn c08(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let i = case as usize;
    if i < LENGTHS.len() {
        let n = LENGTHS[i];
        let cfg = Cfg::sized(if n > 300 { Size::Medium } else { Size::Small });
        let mut b = gen::block_params(r, &cfg);
        if b.strings.len() < 3 {
            b.strings = vec![vec![], b"outer".to_vec(), "außen".into()];
        }
        let p = gen::BlkP::of(&b);
        let mut v = vec![];
        for n in [1, n, 2, 0, n.min(1000)] {
            let mut x = gen::rel(r, r.clone().mag(63), &p, &cfg, 0);
            let mut ids = gen::IdGen::new(r, &cfg);
            x.members = (0..n).map(|_| (r.us(3) as u32, ids.next(r), if r.chance(1, 5) { 0 } else { gen::sid(r, p.nstr).unwrap() })).collect();
            v.push(x);
        }
        b.groups.push(GroupM { rels: v, ..Default::default() });
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return check_file(ctx, r, &f, facet::ID | facet::MEMBERS, "relation of directed length");
    }
    let i = i - LENGTHS.len();
    if i < TABLES.len() {
        let n = TABLES[i];
        let mut b = BlockM::default();
        big_table(&mut b, n);
        let rels = (0..5).map(|k| RelM { id: k, tags: vec![], info: None, members: (0..40).map(|m| (r.us(3) as u32, m, high_sid(r, n))).collect() }).collect();
        b.groups.push(GroupM { rels, ..Default::default() });
        let cfg = Cfg::sized(Size::Tiny);
        let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
        return check_file(ctx, r, &f, facet::ID | facet::MEMBERS, "roles in a table of directed size");
    }
    let mut cfg = Cfg::any(r).kinds([0, 0, 0, 1]);
    if r.chance(1, 6) {
        cfg.kinds = [1, 1, 1, 3];
        cfg.mixed_groups = true;
    }
    let f = blocks_file(r, &cfg);
    check_file(ctx, r, &f, facet::ID | facet::MEMBERS, "random relations")
}

// ---------------------------------------------------------------------------------------------
// C03

fn c03(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let cfg = Cfg::sized(Size::Small);
    let mut h = gen::header(r);
    let i = case as usize;
    if i < 256 {
        // Directed: every subset of the optional fields, with zero/empty values.
        let s = |m: usize| (i & m != 0).then(|| if r.clone().chance(1, 2) { String::new() } else { "x".to_string() });
        let n = |m: usize, v: i64| (i & m != 0).then_some(v);
        h = HeaderM {
            bbox: (i & 1 != 0).then_some(if i & 2 != 0 { [0; 4] } else { [1, 2, 3, 4] }),
            required: if i & 2 != 0 { vec!["a".into(), "".into(), "a".into()] } else { vec![] },
            optional: if i & 4 != 0 { vec!["b".into()] } else { vec![] },
            program: s(8),
            source: s(16),
            rep_ts: n(32, 0),
            rep_seq: n(64, if i & 1 != 0 { 0 } else { -1 }),
            rep_url: s(128),
        };
    } else if i < 256 + 40 {
        // Long lists and long strings
        let n = LENGTHS[i - 256].min(4000);
        h.required = (0..n).map(|k| format!("f{k}")).collect();
        h.optional = (0..n / 2).map(|k| format!("o{k}")).collect();
        h.program = Some("p".repeat(n * 5));
        h.rep_url = Some("ü".repeat(n * 3));
    }
    let mut blobs = vec![gen::blob_of(r, &cfg, "OSMHeader", Payload::Header(h.clone()))];
    let h2 = gen::header(r);
    if r.chance(1, 2) {
        blobs.push(gen::blob_of(r, &cfg, "OSMHeader", Payload::Header(h2.clone())));
    }
    let f = FileM { blobs };
    let e = encode(&f, r);
    let exp = [&h, &h2];
    let mut got = 0;
    for (k, b) in BlobReader::new(Cursor::new(&e.bytes[..])).enumerate() {
        let b = b.map_err(|x| format!("well-formed header blob: {x:?}"))?;
        let hb = b.to_headerblock().map_err(|x| format!("well-formed header block does not decode: {x:?}"))?;
        if let Some(d) = header_diff(exp[k], &hb) {
            return Err(format!("header {k}: {d}").into());
        }
        if let Some(d) = header_diff(exp[k], &hb.clone()) {
            return Err(format!("clone of header {k}: {d}").into());
        }
        match b.decode() {
            Ok(BlobDecode::OsmHeader(hb)) => {
                if let Some(d) = header_diff(exp[k], &hb) {
                    return Err(format!("header {k} via decode(): {d}").into());
                }
            }
            x => return Err(format!("header blob decodes to {x:?}").into()),
        }
        got += 1;
        ctx.eval();
        ctx.nontrivial(hash_bytes(format!("{:?}", exp[k]).as_bytes()));
    }
    ensure!(got == f.blobs.len(), "{got} header blobs read, {} stored", f.blobs.len());
    let p = ctx.file("h.pbf", &e.bytes)?;
    let m = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
    for (k, b) in m.blob_iter().enumerate() {
        let b = b.map_err(|x| format!("mmap: {x:?}"))?;
        let d = b.decode().map_err(|x| format!("mmap: well-formed header: {x:?}"))?;
        match d {
            BlobDecode::OsmHeader(hb) => {
                if let Some(d) = header_diff(exp[k], &hb) {
                    return Err(format!("mmap header {k}: {d}").into());
                }
                ctx.add("headers via mmap", 1);
            }
            x => return Err(format!("mmap header blob decodes to {x:?}").into()),
        }
    }
    ctx.add("header blocks compared", got as u64);
    ctx.sample(|| format!("{h:?}"));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C09

fn c09(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let i = case as usize;
    let cfg = {
        let mut c = if case % 40 == 5 { Cfg::sized(Size::Large) } else { Cfg::any(r) };
        c.mixed_groups = r.chance(1, 4);
        c
    };
    let mut b = gen::block(r, &cfg);
    if let Some(f) = gen::sized(r, cfg.size) {
        b = (**f.blobs[0].block().unwrap()).clone();
    }
    if i < 60 {
        // Directed: empty and change set groups at every place, first, last and in between; many groups.
        let p = gen::BlkP::of(&b);
        let tiny = Cfg { odd_groups: false, plain_strings: true, ..Cfg::sized(Size::Tiny) };
        let n = [0usize, 1, 2, 3, 5, 9, 64, 128, 256, 257, 1000, 4096, 65535, 65536, 65537][i % 15];
        b.groups = (0..n)
            .map(|k| match i / 15 {
                0 if k % 2 == 0 => GroupM::default(),
                1 if k % 2 == 1 => GroupM { changesets: vec![k as i64, 7], ..Default::default() },
                2 if k % 3 == 0 => GroupM { dense: Some(DenseM { nodes: vec![], with_kv: false, info: DInfo::None }), ..Default::default() },
                _ => gen::group(r, &p, &tiny),
            })
            .collect();
    }
    let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b.clone())] };
    let e = encode(&f, r);
    let route = r.us(ROUTES.len());
    let blocks = read_blocks(ctx, &e, route, r)?;
    ensure!(blocks.len() == 1, "one block stored, {} read", blocks.len());
    let blk = &blocks[0];
    let exp = b.exp();
    let it = via_elements(blk);
    let cb = via_callback(blk);
    let gr = via_groups(blk);
    match_block(&exp, &it, facet::ALL).map_err(|m| format!("elements(): {m}"))?;
    match_block(&exp, &cb, facet::ALL).map_err(|m| format!("for_each_element: {m}"))?;
    match_groups(&exp, &gr, facet::ALL).map_err(|m| format!("groups(): {m}"))?;
    if b.groups.iter().all(|g| g.kinds() <= 1) {
        let flat: Vec<El> = gr.into_iter().flat_map(|g| g.into_iter().flatten()).collect();
        for (name, v) in [("for_each_element", &cb), ("groups()", &flat)] {
            ensure!(v.len() == it.len(), "elements() yields {} elements, {name} {}", it.len(), v.len());
            for (k, (x, y)) in it.iter().zip(v).enumerate() {
                if let Some(d) = el_diff(x, y, facet::ALL) {
                    return Err(format!("element {k} differs between elements() and {name}: {d}").into());
                }
            }
        }
        ctx.add("blocks with single-kind groups", 1);
    } else {
        ctx.add("blocks with mixed groups", 1);
    }
    count_kinds(ctx, &exp);
    ctx.add("groups", b.groups.len() as u64);
    ctx.eval();
    // Interleaved iterators over the same block do not disturb each other.
    if it.len() < 2000 {
        let mut a = blk.elements();
        let mut k = 0;
        while let Some(x) = a.next() {
            if let Some(d) = el_diff(&it[k], &ob(&x), facet::ALL) {
                return Err(format!("interleaved elements(), element {k}: {d}").into());
            }
            k += 1;
            if r.chance(1, 8) {
                let mut n = 0;
                let stop = r.us(6);
                for y in blk.elements() {
                    if let Some(d) = el_diff(&it[n], &ob(&y), facet::ALL) {
                        return Err(format!("nested elements(), element {n}: {d}").into());
                    }
                    n += 1;
                    if n > stop {
                        break;
                    }
                }
                for g in blk.groups() {
                    let _ = (g.nodes().next().is_some(), g.dense_nodes().count());
                }
            }
        }
        ensure!(k == it.len(), "interleaved elements() yields {k} elements, {} stored", it.len());
        ensure!(a.next().is_none(), "elements() goes on after its end");
        // A group can be traversed again, and kinds in any order.
        for (gi, g) in blk.groups().enumerate() {
            let mut order = [0usize, 1, 2, 3, 0, 1, 2, 3];
            r.shuffle(&mut order);
            for k in order {
                let v: Vec<El> = match k {
                    0 => g.nodes().map(|x| ob_node(&x)).collect(),
                    1 => g.dense_nodes().map(|x| ob_dense(&x)).collect(),
                    2 => g.ways().map(|x| ob_way(&x)).collect(),
                    _ => g.relations().map(|x| ob_rel(&x)).collect(),
                };
                ensure!(v.len() == exp[gi][k].len(), "group {gi}: {} elements of kind {k} on another traversal, {} stored", v.len(), exp[gi][k].len());
                for (a, b) in exp[gi][k].iter().zip(&v) {
                    if let Some(d) = el_diff(a, b, facet::ALL) {
                        return Err(format!("group {gi} on another traversal: {d}").into());
                    }
                }
            }
        }
    }
    if b.count() > 0 {
        ctx.nontrivial(content_hash(&exp));
        ctx.sample(|| gen::describe(&f, &e));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C10: the same map data, written in different ways

#[derive(Clone, Debug)]
struct MNode {
    id: i64,
    lat: i64, // nano, multiple of 1000
    lon: i64,
    tags: Vec<(String, String)>,
    meta: Option<MMeta>,
}
#[derive(Clone, Debug)]
struct MMeta {
    version: i32,
    ms: i64, // multiple of 1000
    changeset: i64,
    uid: i32,
    user: String,
    visible: bool,
}
#[derive(Clone, Debug)]
enum MEl {
    Node(MNode),
    Way { id: i64, tags: Vec<(String, String)>, meta: Option<MMeta>, refs: Vec<i64>, locs: Option<Vec<(i64, i64)>> },
    Rel { id: i64, tags: Vec<(String, String)>, meta: Option<MMeta>, members: Vec<(u32, i64, String)> },
}

/// What a user sees, independent of the encoding.
#[derive(Clone, Debug, PartialEq)]
struct View {
    kind: u8,
    id: i64,
    nano: Option<(i64, i64)>,
    tags: Vec<(String, String)>,
    meta: (Option<i32>, Option<i64>, Option<i64>, Option<i32>, Option<String>, bool),
    refs: Vec<i64>,
    locs: Vec<(i64, i64)>,
    members: Vec<(u32, i64, String)>,
}

fn view_of(e: &El) -> View {
    let s = |s: &StrE| match s {
        StrE::Ok(s) => s.clone(),
        e => format!("!{e:?}"),
    };
    View {
        kind: match e.kind {
            Kind::Node | Kind::Dense => 0,
            Kind::Way => 1,
            Kind::Rel => 2,
        },
        id: e.id,
        nano: e.coord.map(|c| c.nano),
        tags: e.tags.clone(),
        meta: if e.kind == Kind::Dense && !e.info.present {
            (None, None, None, None, None, true)
        } else {
            (e.info.version, e.info.milli_ts, e.info.changeset, e.info.uid, e.info.user.as_ref().map(s), e.info.visible)
        },
        refs: e.refs.clone(),
        locs: e.locs.iter().map(|c| c.nano).collect(),
        members: e.members.iter().map(|m| (m.ty, m.id, s(&m.role))).collect(),
    }
}

fn view_model(m: &MEl) -> View {
    let meta = |m: &Option<MMeta>| match m {
        None => (None, None, None, None, None, true),
        Some(x) => (Some(x.version), Some(x.ms), Some(x.changeset), Some(x.uid), Some(x.user.clone()), x.visible),
    };
    let base = View { kind: 0, id: 0, nano: None, tags: vec![], meta: meta(&None), refs: vec![], locs: vec![], members: vec![] };
    match m {
        MEl::Node(n) => View { id: n.id, nano: Some((n.lat, n.lon)), tags: n.tags.clone(), meta: meta(&n.meta), ..base },
        MEl::Way { id, tags, meta: x, refs, locs } => View { kind: 1, id: *id, tags: tags.clone(), meta: meta(x), refs: refs.clone(), locs: locs.clone().unwrap_or_default(), ..base },
        MEl::Rel { id, tags, meta: x, members } => View { kind: 2, id: *id, tags: tags.clone(), meta: meta(x), members: members.clone(), ..base },
    }
}

fn map_data(r: &mut Rng, size: Size) -> Vec<MEl> {
    let words: Vec<String> = (0..*r.pick(&[2usize, 5, 40, 140, 300])).map(|i| if i < 20 { String::from_utf8(gen::string(r, Size::Small)).unwrap() } else { format!("w{i}") }).collect();
    let n = match size {
        Size::Tiny => r.us(6),
        Size::Small => *r.pick(&[1usize, 5, 20, 40]),
        Size::Medium => *r.pick(&[100usize, 200, 300]),
        Size::Large => *r.pick(&[1000usize, 8000]),
    };
    let with_meta = r.chance(2, 3);
    let s = |r: &mut Rng| words[r.us(words.len())].clone();
    let tags = |r: &mut Rng| -> Vec<(String, String)> { (0..if r.chance(1, 2) { 0 } else { r.us(5) }).map(|_| (s(r), s(r))).collect() };
    let co = |r: &mut Rng, d: i64| r.range(-d * 1_000_000, d * 1_000_000) * 1000;
    let meta = |r: &mut Rng| {
        with_meta.then(|| MMeta {
            version: r.range(0, 40) as i32,
            ms: r.range(0, 2_000_000_000) * 1000,
            changeset: r.range(0, 1 << 33),
            uid: r.range(0, 1 << 30) as i32,
            user: s(r),
            visible: !r.chance(1, 4),
        })
    };
    let cfg = Cfg::sized(size);
    let mut out = vec![];
    let runs = if r.chance(1, 2) { vec![0u64, 1, 2] } else { (0..1 + r.us(6)).map(|_| r.below(3)).collect() };
    for k in runs {
        let mut ids = gen::IdGen::new(r, &cfg);
        for _ in 0..if n == 0 { 0 } else { 1 + r.us(n) } {
            let id = ids.next(r);
            let mut ri = gen::IdGen::new(r, &cfg);
            out.push(match k {
                0 => MEl::Node(MNode { id, lat: co(r, 90), lon: co(r, 180), tags: tags(r), meta: meta(r) }),
                1 => {
                    let refs: Vec<i64> = (0..r.us(12)).map(|_| ri.next(r)).collect();
                    let locs = r.chance(1, 3).then(|| refs.iter().map(|_| (co(r, 90), co(r, 180))).collect());
                    MEl::Way { id, tags: tags(r), meta: meta(r), refs, locs }
                }
                _ => MEl::Rel { id, tags: tags(r), meta: meta(r), members: (0..r.us(8)).map(|_| (r.us(3) as u32, ri.next(r), s(r))).collect() },
            });
        }
    }
    out
}

/// Writes the map data with freshly drawn choices.
fn write_variant(r: &mut Rng, data: &[MEl]) -> FileM {
    let mut f = FileM::default();
    let mut cfg = Cfg::sized(Size::Small);
    cfg.compress = r.chance(3, 4);
    cfg.style = r.chance(3, 4);
    if r.chance(3, 4) {
        f.blobs.push(gen::header_blob(r, &cfg));
    }
    let per_block = *r.pick(&[1usize, 3, 20, 1000, 100000]);
    let per_group = *r.pick(&[1usize, 2, 7, 100, 100000]);
    let dense_bias = r.below(3);
    let mut i = 0;
    while i < data.len() {
        if r.chance(1, 10) {
            f.blobs.push(gen::unknown_blob(r, &cfg));
        }
        let part = &data[i..(i + 1 + r.us(per_block)).min(data.len())];
        i += part.len();
        // String table: all strings used, in any order, with unused and repeated entries.
        let mut used: Vec<String> = vec![];
        let meta_s = |m: &Option<MMeta>, u: &mut Vec<String>| {
            if let Some(m) = m {
                u.push(m.user.clone())
            }
        };
        for e in part {
            match e {
                MEl::Node(n) => {
                    meta_s(&n.meta, &mut used);
                    used.extend(n.tags.iter().flat_map(|t| [t.0.clone(), t.1.clone()]));
                }
                MEl::Way { tags, meta, .. } => {
                    meta_s(meta, &mut used);
                    used.extend(tags.iter().flat_map(|t| [t.0.clone(), t.1.clone()]));
                }
                MEl::Rel { tags, meta, members, .. } => {
                    meta_s(meta, &mut used);
                    used.extend(tags.iter().flat_map(|t| [t.0.clone(), t.1.clone()]));
                    used.extend(members.iter().map(|m| m.2.clone()));
                }
            }
        }
        used.sort();
        used.dedup();
        if r.chance(1, 2) {
            for _ in 0..r.us(200) {
                used.push(format!("unused{}", r.below(1000)));
            }
            if !used.is_empty() {
                let d = used[r.us(used.len())].clone();
                used.push(d);
            }
        }
        match r.below(3) {
            0 => r.shuffle(&mut used),
            1 => used.reverse(),
            _ => {}
        }
        let mut table: std::collections::HashMap<&str, Vec<u32>> = Default::default();
        for (k, s) in used.iter().enumerate() {
            table.entry(s).or_default().push(k as u32 + 1);
        }
        // Only the tags of dense nodes cannot use index 0.
        let zero = if r.chance(1, 3) && !used.is_empty() { used[r.us(used.len())].clone() } else { String::new() };
        let sid = |r: &mut Rng, s: &str| if s == zero && r.chance(1, 2) { 0 } else { *r.pick(&table[s]) };
        let dsid = |r: &mut Rng, s: &str| *r.pick(&table[s]);
        let gran = *r.pick(&[None, Some(100), Some(1), Some(10), Some(1000), Some(500)]);
        let off = |r: &mut Rng| *r.pick(&[None, Some(0), Some(1_000_000), Some(-90_000_000_000), Some(180_000_000_000), Some(-1000)]);
        let date = *r.pick(&[None, Some(1000), Some(1), Some(100), Some(500)]);
        let mut b = BlockM {
            strings: std::iter::once(zero.clone().into_bytes()).chain(used.iter().map(|s| s.clone().into_bytes())).collect(),
            gran,
            lat_off: off(r),
            lon_off: off(r),
            date_gran: date,
            groups: vec![],
        };
        let g = gran.unwrap_or(100) as i64;
        let (la, lo, dg) = (b.lat_off.unwrap_or(0), b.lon_off.unwrap_or(0), date.unwrap_or(1000) as i64);
        let raw = |c: (i64, i64)| ((c.0 - la) / g, (c.1 - lo) / g);
        let t = |r: &mut Rng, v: &Vec<(String, String)>| -> TagsM { v.iter().map(|(k, x)| (sid(r, k), sid(r, x))).collect() };
        let inf = |r: &mut Rng, m: &Option<MMeta>| {
            m.as_ref().map(|m| InfoM {
                version: Some(m.version),
                timestamp: Some(m.ms / dg),
                changeset: Some(m.changeset),
                uid: Some(m.uid),
                user_sid: Some(sid(r, &m.user)),
                visible: if m.visible && r.chance(1, 2) { None } else { Some(m.visible) },
            })
        };
        let mut j = 0;
        while j < part.len() {
            if r.chance(1, 12) {
                b.groups.push(GroupM::default());
            }
            let kind = |e: &MEl| match e {
                MEl::Node(_) => 0,
                MEl::Way { .. } => 1,
                MEl::Rel { .. } => 2,
            };
            let max = 1 + r.us(per_group);
            let k = kind(&part[j]);
            let run: Vec<&MEl> = part[j..].iter().take_while(|e| kind(e) == k).take(max).collect();
            j += run.len();
            let mut gm = GroupM::default();
            let dense = k == 0 && (dense_bias == 1 || (dense_bias == 2 && r.chance(1, 2)));
            for e in &run {
                match e {
                    MEl::Node(n) => {
                        let tags = if dense { n.tags.iter().map(|(k, x)| (dsid(r, k), dsid(r, x))).collect() } else { t(r, &n.tags) };
                        let c = raw((n.lat, n.lon));
                        gm.nodes.push(NodeM { id: n.id, lat: c.0, lon: c.1, tags, info: inf(r, &n.meta) });
                    }
                    MEl::Way { id, tags, meta, refs, locs } => gm.ways.push(WayM {
                        id: *id,
                        tags: t(r, tags),
                        info: inf(r, meta),
                        refs: refs.clone(),
                        locs: locs.as_ref().map(|l| l.iter().map(|c| raw(*c)).collect()),
                    }),
                    MEl::Rel { id, tags, meta, members } => {
                        gm.rels.push(RelM { id: *id, tags: t(r, tags), info: inf(r, meta), members: members.iter().map(|(t, i, s)| (*t, *i, sid(r, s))).collect() })
                    }
                }
            }
            if dense {
                let has = gm.nodes.iter().all(|n| n.info.is_some());
                let all_vis = gm.nodes.iter().all(|n| n.info.as_ref().map_or(true, |i| i.visible != Some(false)));
                let no_tags = gm.nodes.iter().all(|n| n.tags.is_empty());
                gm.dense = Some(DenseM {
                    info: if !has { DInfo::None } else if all_vis && r.chance(1, 2) { DInfo::NoVisible } else { DInfo::Visible },
                    with_kv: !no_tags || r.chance(1, 2),
                    nodes: std::mem::take(&mut gm.nodes),
                });
            }
            b.groups.push(gm);
        }
        f.blobs.push(gen::data_blob(r, &cfg, b));
    }
    f
}

fn c10(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let size = match case % 20 {
        0 => Size::Medium,
        1..=5 => Size::Tiny,
        19 if case % 100 == 99 => Size::Large,
        _ => Size::Small,
    };
    let data = map_data(r, size);
    let want: Vec<View> = data.iter().map(view_model).collect();
    let n = if size == Size::Large { 2 } else { 2 + r.us(4) };
    for v in 0..n {
        let f = write_variant(r, &data);
        let e = encode(&f, r);
        let mut got: Vec<View> = vec![];
        let route = r.us(4);
        let each = |x: Element| got.push(view_of(&ob(&x)));
        match route {
            0 => ElementReader::new(&e.bytes[..]).for_each(each).map_err(|x| format!("variant {v}: {x:?}"))?,
            1 => {
                let mut each = each;
                let rt = r.us(ROUTES.len());
                for b in read_blocks(ctx, &e, rt, r)? {
                    for x in b.elements() {
                        each(x);
                    }
                }
            }
            2 => {
                let p = ctx.file("v.pbf", &e.bytes)?;
                ElementReader::from_path(&p).map_err(|x| format!("{x:?}"))?.for_each(each).map_err(|x| format!("variant {v}: {x:?}"))?
            }
            _ => {
                // Parallel, with an order preserving reduction per block only: compare as multiset
                let mut g = pool(4)
                    .install(|| {
                        ElementReader::new(&e.bytes[..]).par_map_reduce(
                            |x| vec![view_of(&ob(&x))],
                            Vec::new,
                            |mut a, mut b| {
                                a.append(&mut b);
                                a
                            },
                        )
                    })
                    .map_err(|x| format!("variant {v}: {x:?}"))?;
                let key = |x: &View| format!("{x:?}");
                g.sort_by_cached_key(key);
                let mut w = want.clone();
                w.sort_by_cached_key(key);
                ensure!(g == w, "variant {v} ({}): the parallel reader sees other data than was written", gen::describe(&f, &e));
                got = want.clone();
            }
        }
        ctx.eval();
        ctx.add("elements compared", got.len() as u64);
        ensure!(got.len() == want.len(), "variant {v}: {} elements seen, {} written ({})", got.len(), want.len(), gen::describe(&f, &e));
        if let Some(k) = (0..got.len()).find(|k| got[*k] != want[*k]) {
            return Err(format!("variant {v}: element {k} is seen as {:?}, written as {:?} ({})", got[k], want[k], gen::describe(&f, &e)).into());
        }
        if !data.is_empty() {
            ctx.nontrivial(hash_bytes(&e.bytes));
            ctx.sample(|| format!("{} elements, variant {v}: {}", data.len(), gen::describe(&f, &e)));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C26

pub fn c26(ctx: &mut Ctx, _case: u64, r: &mut Rng) -> R {
    let mut cfg = if r.chance(1, 10) { Cfg::sized(Size::Medium) } else if r.chance(1, 2) { Cfg::sized(Size::Small) } else { Cfg::sized(Size::Tiny) };
    cfg.kinds = [1, 2, 1, 2];
    let mut b = gen::block(r, &cfg);
    // Strings that are not UTF-8
    const BAD: &[&[u8]] = &[b"\xff", b"ok\xff", b"abc\xc3", b"\xe2\x82", b"valid \xed\xa0\x80 surrogate", b"\xc0\x80", b"x\x80y", b"\xf4\x90\x80\x80", b"\xfe\xfe", b"tail\xf0\x9f"];
    for _ in 0..1 + r.us(4) {
        let mut s = r.pick(BAD).to_vec();
        if r.chance(1, 3) {
            // The invalid part comes late in a long text
            let n = match r.below(3) {
                0 => *r.pick(&[15usize, 63, 64, 127, 128, 255, 256, 1023, 4095, 4096, 32767, 65535, 65536, 70_000]),
                1 => r.us(300),
                _ => r.us(20_000),
            };
            let unit: &[u8] = *r.pick(&[&b"a"[..], "ö".as_bytes(), "橋".as_bytes(), "\u{1f309}".as_bytes()]);
            let mut long: Vec<u8> = unit.iter().copied().cycle().take(n / unit.len() * unit.len()).collect();
            long.append(&mut s);
            s = long;
            if r.chance(1, 4) {
                s.extend_from_slice(b" and a valid end");
            }
            ctx.add("long strings with an invalid part", 1);
        }
        let at = if b.strings.is_empty() { 0 } else { 1 + r.us(b.strings.len()) };
        // inserting shifts references; they stay references to some string
        b.strings.insert(at, s);
    }
    let n = b.strings.len() as u32;
    let bad_sid = |r: &mut Rng| -> u32 {
        match r.below(6) {
            // Negative where the field is signed
            5 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) + 1, 0u32.wrapping_sub(n), 0u32.wrapping_sub(n).wrapping_sub(1), 1u32.wrapping_sub(n)]),
            0 => n,
            1 => n + r.below(1000) as u32,
            2 => *r.pick(&[(i32::MAX) as u32, 1 << 20, 65536, i32::MAX as u32 - 1]),
            _ => r.below(n as u64 + 1) as u32,
        }
    };
    let dens = 1 + r.below(6);
    let hit = |r: &mut Rng| r.chance(1, dens);
    let inf = |r: &mut Rng, i: &mut Option<InfoM>, dense: bool| {
        if let Some(i) = i {
            if hit(r) && (dense || i.user_sid.is_some()) {
                i.user_sid = Some(bad_sid(r));
            }
        }
    };
    let tg = |r: &mut Rng, t: &mut TagsM, dense: bool| {
        for x in t.iter_mut() {
            if r.chance(1, dens * 2) {
                let s = bad_sid(r).max(dense as u32);
                if r.chance(1, 2) {
                    x.0 = s
                } else {
                    x.1 = s
                }
            }
        }
    };
    for g in &mut b.groups {
        for x in &mut g.nodes {
            inf(r, &mut x.info, false);
            tg(r, &mut x.tags, false);
        }
        for x in &mut g.ways {
            inf(r, &mut x.info, false);
            tg(r, &mut x.tags, false);
        }
        for x in &mut g.rels {
            inf(r, &mut x.info, false);
            tg(r, &mut x.tags, false);
            for m in &mut x.members {
                if hit(r) {
                    m.2 = bad_sid(r);
                }
            }
        }
        if let Some(d) = &mut g.dense {
            for x in &mut d.nodes {
                inf(r, &mut x.info, true);
                tg(r, &mut x.tags, true);
            }
        }
    }
    let exp = b.exp();
    for e in exp.iter().flatten().flatten() {
        let mut one = |s: &StrE| match s {
            StrE::Ok(_) => ctx.add("valid string references", 1),
            StrE::Utf8 { .. } => ctx.add("references to invalid UTF-8", 1),
            _ => ctx.add("references outside the table", 1),
        };
        if let Some(u) = &e.info.user {
            one(u);
        }
        for m in &e.members {
            one(&m.role);
        }
        if e.tags.len() < e.raw_tags.len() {
            ctx.add("elements with an invalid tag", 1);
        }
    }
    let f = FileM { blobs: vec![gen::data_blob(r, &cfg, b)] };
    check_file(ctx, r, &f, facet::ID | facet::TAGS | facet::INFO | facet::MEMBERS, "invalid string references")
}

// ---------------------------------------------------------------------------------------------
// C27

fn exact<I, T>(ctx: &mut Ctx, r: &mut Rng, what: &str, it: I, f: impl Fn(I::Item) -> T, exp: &[T]) -> R
where
    I: ExactSizeIterator + Clone,
    T: PartialEq + Debug,
{
    let n = exp.len();
    ctx.add("iterators checked", 1);
    let mut a = it.clone();
    // Step through; clone at every step of short ones, at some steps of long ones.
    for k in 0..=n {
        ensure!(a.len() == n - k, "{what}: len() is {} at step {k}, but {} items remain", a.len(), n - k);
        ensure!(a.size_hint() == (n - k, Some(n - k)), "{what}: size_hint {:?} at step {k}, but {} items remain", a.size_hint(), n - k);
        ctx.add("length promises compared", 1);
        if n < 12 || r.chance(6, n as u64) || k == n {
            let mut c = a.clone();
            ensure!(c.len() == n - k, "{what}: clone at step {k} reports {} items, {} remain", c.len(), n - k);
            match r.below(6) {
                0 => ensure!(c.count() == n - k, "{what}: count() of a clone at step {k} is not {}", n - k),
                1 => {
                    let l = c.last().map(&f);
                    ensure!(l.as_ref() == exp[k..].last(), "{what}: last() of a clone at step {k} is {l:?}");
                }
                2 => {
                    let s = r.us(n - k + 2);
                    let x = c.nth(s).map(&f);
                    ensure!(x.as_ref() == exp[k..].get(s), "{what}: nth({s}) at step {k} is {x:?}, stored {:?}", exp[k..].get(s));
                    let left = (n - k).saturating_sub(s + 1);
                    ensure!(c.len() == left, "{what}: len() after nth({s}) at step {k} is {}, but {left} items remain", c.len());
                    let rest: Vec<T> = c.map(&f).collect();
                    ensure!(rest == exp[n - left..], "{what}: items after nth({s}) at step {k} differ");
                }
                3 => {
                    let v = c.fold(vec![], |mut v, x| {
                        v.push(f(x));
                        v
                    });
                    ensure!(v == exp[k..], "{what}: fold of a clone at step {k} differs");
                }
                _ => {
                    let v: Vec<T> = c.map(&f).collect();
                    ensure!(v.len() == n - k, "{what}: clone at step {k} yields {} items, {} remain", v.len(), n - k);
                    ensure!(v == exp[k..], "{what}: clone at step {k} yields other items");
                }
            }
            ctx.add("clones compared", 1);
        }
        let x = a.next().map(&f);
        ensure!(x.as_ref() == exp.get(k), "{what}: item {k} is {x:?}, stored {:?}", exp.get(k));
    }
    for _ in 0..3 {
        ensure!(a.len() == 0, "{what}: len() is {} after the end", a.len());
        ensure!(a.size_hint() == (0, Some(0)), "{what}: size_hint {:?} after the end", a.size_hint());
        ensure!(a.next().is_none(), "{what}: yields an item after its end");
    }
    let mut c = a.clone();
    ensure!(c.len() == 0 && c.next().is_none(), "{what}: clone of a finished iterator is not finished");
    Ok(())
}

pub fn c27(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let cfg = match case % 12 {
        0 => Cfg::sized(Size::Medium),
        1 if case % 24 == 1 => Cfg::sized(Size::Large),
        2..=6 => Cfg::sized(Size::Tiny),
        _ => Cfg::sized(Size::Small),
    };
    let cfg = Cfg { mixed_groups: r.chance(1, 5), ..cfg };
    let mut f = gen::file(r, &cfg);
    let blk = Arc::new(gen::block(r, &cfg));
    f.blobs.push(gen::blob_of(r, &cfg, "OSMData", Payload::Data(blk.clone())));
    let e = encode(&f, r);
    let only = FileM { blobs: vec![f.blobs.last().unwrap().clone()] };
    let e1 = encode(&only, r);
    let route = r.us(ROUTES.len());
    let mut b = read_blocks(ctx, &e1, route, r)?.remove(0);
    if r.chance(1, 3) {
        b = b.clone();
    }
    let exp = blk.exp();
    ctx.eval();
    ctx.nontrivial(content_hash(&exp));
    ctx.sample(|| gen::describe(&only, &e1));
    let ids = |v: &Vec<El>| -> Vec<i64> { v.iter().map(|e| e.id).collect() };
    // groups: identified by the ids of their elements
    let gids: Vec<Vec<i64>> = exp.iter().map(|g| g.iter().flat_map(ids).collect()).collect();
    let gid = |g: PrimitiveGroup| -> Vec<i64> {
        g.nodes().map(|x| x.id()).chain(g.dense_nodes().map(|x| x.id())).chain(g.ways().map(|x| x.id())).chain(g.relations().map(|x| x.id())).collect()
    };
    exact(ctx, r, "GroupIter", b.groups(), gid, &gids)?;
    for (gi, g) in b.groups().enumerate() {
        let g = if r.chance(1, 2) { g.clone() } else { g };
        let x = &exp[gi];
        exact(ctx, r, "GroupNodeIter", g.nodes(), |n| n.id(), &ids(&x[0]))?;
        exact(ctx, r, "DenseNodeIter", g.dense_nodes(), |n| el_hash(&ob_dense(&n)), &x[1].iter().map(el_hash).collect::<Vec<_>>())?;
        exact(ctx, r, "GroupWayIter", g.ways(), |n| n.id(), &ids(&x[2]))?;
        exact(ctx, r, "GroupRelationIter", g.relations(), |n| n.id(), &ids(&x[3]))?;
        let pick = |r: &mut Rng, n: usize| n < 20 || r.chance(20, n as u64);
        let st = |t: (&str, &str)| (t.0.to_string(), t.1.to_string());
        for (k, n) in g.nodes().enumerate() {
            if pick(r, x[0].len()) {
                let n = if r.chance(1, 2) { n.clone() } else { n };
                exact(ctx, r, "TagIter of a node", n.tags(), st, &x[0][k].tags)?;
                exact(ctx, r, "RawTagIter of a node", n.raw_tags(), |t| t, &x[0][k].raw_tags)?;
            }
        }
        for (k, n) in g.dense_nodes().enumerate() {
            if pick(r, x[1].len()) {
                let n = if r.chance(1, 2) { n.clone() } else { n };
                exact(ctx, r, "DenseTagIter", n.tags(), st, &x[1][k].tags)?;
                exact(ctx, r, "DenseRawTagIter", n.raw_tags(), |t| (t.0 as u32, t.1 as u32), &x[1][k].raw_tags)?;
                if let Some(d) = el_diff(&x[1][k], &ob_dense(&n), facet::ALL) {
                    return Err(format!("clone of a dense node: {d}").into());
                }
            }
        }
        for (k, n) in g.ways().enumerate() {
            if pick(r, x[2].len()) {
                let n = if r.chance(1, 2) { n.clone() } else { n };
                exact(ctx, r, "TagIter of a way", n.tags(), st, &x[2][k].tags)?;
                exact(ctx, r, "RawTagIter of a way", n.raw_tags(), |t| t, &x[2][k].raw_tags)?;
                exact(ctx, r, "WayRefIter", n.refs(), |t| t, &x[2][k].refs)?;
                exact(ctx, r, "WayNodeLocationsIter", n.node_locations(), |l| (l.nano_lat(), l.nano_lon()), &x[2][k].locs.iter().map(|c| c.nano).collect::<Vec<_>>())?;
            }
        }
        for (k, n) in g.relations().enumerate() {
            if pick(r, x[3].len()) {
                let n = if r.chance(1, 2) { n.clone() } else { n };
                exact(ctx, r, "TagIter of a relation", n.tags(), st, &x[3][k].tags)?;
                exact(ctx, r, "RawTagIter of a relation", n.raw_tags(), |t| t, &x[3][k].raw_tags)?;
                let mem: Vec<(i64, i32, String)> = x[3][k].members.iter().map(|m| (m.id, m.role_sid, format!("{:?}{:?}", m.ty, m.role))).collect();
                let mf = |m: RelMember| {
                    let m = m.clone();
                    let ty = match m.member_type {
                        RelMemberType::Node => 0u32,
                        RelMemberType::Way => 1,
                        RelMemberType::Relation => 2,
                    };
                    (m.member_id, m.role_sid, format!("{:?}{:?}", ty, strr(m.role())))
                };
                exact(ctx, r, "RelMemberIter", n.members(), mf, &mem)?;
            }
        }
    }
    // BlockElementsIter: no exact length, but clones (at any point) continue identically.
    let all: Vec<u64> = b.elements().map(|x| el_hash(&ob(&x))).collect();
    match_block(&exp, &via_elements(&b), facet::ALL)?;
    let mut it = b.elements();
    for k in 0..=all.len() {
        let (lo, hi) = it.size_hint();
        ensure!(lo <= all.len() - k && hi.map_or(true, |h| h >= all.len() - k), "BlockElementsIter: size_hint ({lo}, {hi:?}) excludes the {} remaining elements", all.len() - k);
        if all.len() < 15 || r.chance(6, all.len() as u64) {
            let c: Vec<u64> = it.clone().map(|x| el_hash(&ob(&x.clone()))).collect();
            ensure!(c == all[k..], "BlockElementsIter: clone at step {k} yields other elements ({} of {})", c.len(), all.len() - k);
            let s = r.us(all.len() - k + 2);
            let mut c = it.clone();
            let x = c.nth(s).map(|x| el_hash(&ob(&x)));
            ensure!(x.as_ref() == all[k..].get(s), "BlockElementsIter: nth({s}) at step {k} differs");
            ctx.add("clones compared", 2);
        }
        let x = it.next().map(|x| el_hash(&ob(&x)));
        ensure!(x.as_ref() == all.get(k), "BlockElementsIter: element {k} differs");
    }
    for _ in 0..3 {
        ensure!(it.next().is_none() && it.clone().next().is_none(), "BlockElementsIter yields an element after its end");
    }
    // Readers and blobs.
    let key = |x: &Blob| (ty_str(&x.get_type()), x.offset(), x.to_primitiveblock().ok().map(|p| p.elements().map(|e| el_hash(&ob(&e))).fold(0u64, |h, x| mix(h ^ x))));
    let seekable = r.chance(1, 2);
    let cur = Cursor::new(&e.bytes[..]);
    let mut rd = if seekable { BlobReader::new_seekable(cur).map_err(|x| format!("{x:?}"))? } else { BlobReader::new(cur) };
    let fresh: Vec<_> = rd.clone().map(|x| x.map(|x| key(&x)).map_err(|x| format!("{x:?}"))).collect();
    ensure!(fresh.len() == f.blobs.len() && fresh.iter().all(|x| x.is_ok()), "clone of a fresh BlobReader does not yield the {} stored blobs: {}", f.blobs.len(), fresh.len());
    for k in 0..=fresh.len() {
        if fresh.len() < 20 || r.chance(10, fresh.len() as u64) {
            let c: Vec<_> = rd.clone().map(|x| x.map(|x| key(&x)).map_err(|x| format!("{x:?}"))).collect();
            ensure!(c == fresh[k..], "BlobReader: clone after {k} blobs yields other blobs ({} of {})", c.len(), fresh.len() - k);
            let rest = fresh.len() - k;
            let (lo, hi) = rd.size_hint();
            ensure!(lo <= rest && hi.map_or(true, |h| h >= rest), "BlobReader: size_hint ({lo}, {hi:?}) excludes the {rest} remaining blobs");
            ensure!(rd.clone().count() == rest, "BlobReader: count() differs from the {rest} remaining blobs");
            let s = r.below(rest as u64 + 2) as usize;
            let x = rd.clone().nth(s).map(|x| x.map(|x| key(&x)).map_err(|x| format!("{x:?}")));
            ensure!(x.as_ref() == fresh[k..].get(s), "BlobReader: nth({s}) after {k} blobs differs");
            ctx.add("reader clones compared", 3);
        }
        match (rd.next(), fresh.get(k)) {
            (None, None) => {}
            (Some(Ok(x)), Some(Ok(w))) => {
                ensure!(key(&x) == *w && key(&x.clone()) == *w, "BlobReader: blob {k} differs from the clone's, or its own clone differs");
            }
            (x, w) => return Err(format!("BlobReader: blob {k}: {:?}, the clone saw {w:?}", x.map(|x| x.is_ok())).into()),
        }
    }
    let er = ElementReader::new(Cursor::new(&e.bytes[..]));
    let (mut x, mut y) = (vec![], vec![]);
    er.clone().for_each(|e| x.push(el_hash(&ob(&e)))).map_err(|x| format!("{x:?}"))?;
    er.for_each(|e| y.push(el_hash(&ob(&e)))).map_err(|x| format!("{x:?}"))?;
    ensure!(x == y && x.len() == f.count(), "ElementReader: its clone saw {} elements, itself {}, stored {}", x.len(), y.len(), f.count());
    if r.chance(1, 2) {
        let p = ctx.file("c27.pbf", &e.bytes)?;
        let m = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
        let mut it = m.blob_iter();
        for k in 0..=e.lay.len() {
            if e.lay.len() < 20 || r.chance(10, e.lay.len() as u64) {
                let c: Vec<u64> = it.clone().filter_map(|x| x.ok()).map(|x| x.clone().offset().0).collect();
                ensure!(c == e.lay[k..].iter().map(|l| l.off).collect::<Vec<_>>(), "MmapBlobReader: clone after {k} blobs yields other blobs");
                let rest = e.lay.len() - k;
                let (lo, hi) = it.size_hint();
                ensure!(lo <= rest && hi.map_or(true, |h| h >= rest), "MmapBlobReader: size_hint ({lo}, {hi:?}) excludes the {rest} remaining blobs");
                ensure!(it.clone().count() == rest, "MmapBlobReader: count() differs from the {rest} remaining blobs");
                let s = r.below(rest as u64 + 2) as usize;
                let x = it.clone().nth(s).map(|x| x.map(|x| x.offset().0).map_err(|x| format!("{x:?}")));
                ensure!(x == e.lay[k..].get(s).map(|l| Ok(l.off)), "MmapBlobReader: nth({s}) after {k} blobs gives {x:?}");
                ctx.add("reader clones compared", 3);
            }
            let x = it.next();
            ensure!(x.is_some() == (k < e.lay.len()), "MmapBlobReader: blob {k} missing or extra");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            rule: "A case is one or two generated header blocks (random, or a directed subset of fields with zero/empty values, or long lists), written in a random legal encoding and read through Blob::to_headerblock, Blob::decode and the memory map; every field is compared. Distinct by content.",
            directed: |_| 256 + 40,
            minima: &[("header blocks compared", 500), ("headers via mmap", 300)],
            run: c03,
            quick_s: 8,
            ..BASE
        },
        Prop {
            id: "C04",
            rule: "A case is a file of generated node blocks (directed group sizes up to 131073, extreme values, random mixes of dense and plain groups, granularities and offsets) read by a random route and traversal; ids and coordinates of every node are compared with 128 bit arithmetic. Non-trivial: holds elements; distinct by content.",
            directed: |_| (LENGTHS.len() * 2 + C04_EXTREME.len() * 2) as u64,
            minima: &[("plain nodes", 10_000), ("dense nodes", 10_000)],
            run: c04,
            ..BASE
        },
        Prop {
            id: "C05",
            rule: "A case is a file of generated blocks (directed tag list lengths between untagged neighbours per element kind, huge strings and string tables, random mixes incl. dense groups without tag data) read by a random route; tags, raw tag indices and the raw string table are compared. Non-trivial: holds elements; distinct by content.",
            directed: |_| ((LENGTHS.len() - 6) * 4 + 3) as u64,
            minima: &[("dense nodes", 5_000), ("plain nodes", 2_000), ("ways", 2_000), ("relations", 2_000), ("string table entries compared", 10_000)],
            run: c05,
            ..BASE
        },
        Prop {
            id: "C06",
            rule: "A case is a file of generated blocks (every subset of metadata fields for plain elements, dense modes without info / without visible / with visible at directed sizes, users all over string tables of up to 200000 entries, random mixes) read by a random route; all metadata accessors are compared. Non-trivial: holds elements; distinct by content.",
            directed: |_| (64 * 4 + TABLES.len()) as u64,
            minima: &[("dense nodes", 5_000), ("plain nodes", 2_000), ("ways", 1_000), ("relations", 1_000)],
            run: c06,
            ..BASE
        },
        Prop {
            id: "C07",
            rule: "A case is a file of generated ways (directed lengths up to 131073 with and without locations, extreme values, random) read by a random route; ids, refs, raw refs and locations are compared. Non-trivial: holds elements; distinct by content.",
            directed: |_| (LENGTHS.len() * 2 + C04_EXTREME.len()) as u64,
            minima: &[("ways", 10_000)],
            run: c07,
            ..BASE
        },
        Prop {
            id: "C08",
            rule: "A case is a file of generated relations (directed member counts up to 131073, roles all over string tables of up to 200000 entries, random) read by a random route; ids and all members are compared. Non-trivial: holds elements; distinct by content.",
            directed: |_| (LENGTHS.len() + TABLES.len()) as u64,
            minima: &[("relations", 10_000)],
            run: c08,
            ..BASE
        },
        Prop {
            id: "C09",
            rule: "A case is one generated block (empty/change set/empty dense groups at all places, up to 65537 groups, single-kind and mixed groups) traversed by elements(), for_each_element, groups(), interleaved and repeated; each must give the stored elements. Non-trivial: holds elements; distinct by content.",
            directed: |_| 60,
            minima: &[("blocks with single-kind groups", 300), ("groups", 10_000)],
            run: c09,
            ..BASE
        },
        Prop {
            id: "C10",
            rule: "A case is one generated set of map data written in 2 to 5 independently drawn encodings (dense/plain, compression, group and blob split, granularity, offsets, string table order, list and field styles, unknown fields and blobs) and read back by a random reader; the views must equal the data. Non-trivial: holds elements; distinct by file bytes.",
            minima: &[("elements compared", 50_000)],
            run: c10,
            ..BASE
        },
        Prop {
            id: "C26",
            rule: "A case is a generated block in which some user, role and tag references point outside the string table or to invalid UTF-8; every accessor result is compared with the model (error kind, index, UTF-8 position; tags up to the first invalid one). Non-trivial: holds elements; distinct by content.",
            minima: &[("references to invalid UTF-8", 1000), ("references outside the table", 1000), ("valid string references", 1000), ("elements with an invalid tag", 500)],
            run: c26,
            ..BASE
        },
        Prop {
            id: "C27",
            rule: "A case is a generated block and file; every exact size iterator is stepped to its end with len()/size_hint compared at each step, clones taken at random points (all points of short lists) and compared item by item, also nth/last/count/fold; blobs, blocks, readers and the memory map iterator are cloned at each position. Distinct by content.",
            minima: &[("length promises compared", 100_000), ("clones compared", 50_000), ("reader clones compared", 500)],
            run: c27,
            ..BASE
        },
    ]
}
