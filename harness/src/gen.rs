//! Workload generator: well-formed PBF data, from tiny to large, biased to boundary values.

use crate::dict;
use crate::model::*;
use crate::pb::*;
use crate::rng::Rng;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Size {
    Tiny,
    Small,
    Medium,
    Large,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub size: Size,
    pub mixed_groups: bool,
    pub odd_groups: bool,
    pub meta: bool,
    pub style: bool,
    pub compress: bool,
    pub unknown_blobs: bool,
    /// Weights of node, dense, way, relation groups
    pub kinds: [u64; 4],
    /// Draw ids from a small range, so that ways reference stored nodes.
    pub connected: bool,
    /// Reduce string sizes (for very many blocks)
    pub plain_strings: bool,
}

impl Cfg {
    pub fn any(r: &mut Rng) -> Cfg {
        let size = match r.below(100) {
            0..=34 => Size::Tiny,
            35..=84 => Size::Small,
            85..=97 => Size::Medium,
            _ => Size::Large,
        };
        Cfg::sized(size)
    }
    pub fn sized(size: Size) -> Cfg {
        Cfg {
            size,
            mixed_groups: false,
            odd_groups: true,
            meta: true,
            style: true,
            compress: true,
            unknown_blobs: true,
            kinds: [1, 1, 1, 1],
            connected: false,
            plain_strings: false,
        }
    }
    pub fn kinds(mut self, k: [u64; 4]) -> Cfg {
        self.kinds = k;
        self
    }
}

/// How large a count may get that is a constant of the code.
fn limit(size: Size) -> i64 {
    match size {
        Size::Tiny => 20,
        Size::Small => 300,
        Size::Medium => 2100,
        Size::Large => 20_000,
    }
}

/// A count that is small most of the time and sits at a boundary sometimes.
pub fn count(r: &mut Rng, size: Size) -> usize {
    if let Some(x) = dict::num(r, 40, limit(size)) {
        return x as usize;
    }
    let b: &[usize] = match size {
        Size::Tiny => &[0, 1, 1, 2, 3],
        Size::Small => &[0, 1, 1, 2, 2, 3, 4, 5, 7, 10, 15, 16, 17, 31, 32, 33],
        Size::Medium => &[0, 1, 2, 5, 20, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300],
        Size::Large => &[1, 2, 100, 255, 256, 257, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 7999, 8000, 8001],
    };
    *r.pick(b)
}

const WORDS: &[&str] = &[
    "building", "yes", "highway", "residential", "name", "source", "amenity", "natural", "tree", "outer", "inner", "", "a", " ", "no", "addr:housenumber",
    "Straße", "東京", "emoji 🚀", "\u{0}", "a\u{0}b", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "=", "key=value", "\"quoted\"", "\n",
];

pub fn string(r: &mut Rng, size: Size) -> Vec<u8> {
    if let Some(t) = dict::text(r, 40) {
        return t.as_bytes().to_vec();
    }
    if let Some(n) = dict::num(r, 80, limit(size)) {
        return vec![b'z'; n as usize];
    }
    let s: String = match r.below(10) {
        0..=4 => r.pick(WORDS).to_string(),
        5 if size >= Size::Medium => {
            let n = *r.pick(&[127usize, 128, 129, 255, 256, 1000, 16383, 16384, 16385]);
            let c = *r.pick(&['x', 'ü', '東']);
            std::iter::repeat(c).take(n / c.len_utf8()).collect()
        }
        5 if size == Size::Small && r.chance(1, 4) => "y".repeat(*r.pick(&[126usize, 127, 128, 129, 255, 256])),
        _ => format!("s{}", r.below(100000)),
    };
    s.into_bytes()
}

pub fn strings(r: &mut Rng, cfg: &Cfg) -> Vec<Vec<u8>> {
    let n = match cfg.size {
        _ if cfg.plain_strings => r.us(4),
        Size::Tiny => r.us(5),
        Size::Small => *r.pick(&[0usize, 1, 3, 5, 10, 20, 40, 126, 127, 128, 130]),
        Size::Medium => *r.pick(&[5usize, 50, 127, 128, 129, 254, 255, 256, 257, 600]),
        Size::Large => *r.pick(&[100usize, 255, 256, 2000, 16382, 16383, 16384, 16385, 40000]),
    };
    let n = dict::num(r, 30, limit(cfg.size) * 3).map_or(n, |x| x as usize);
    // Only dense nodes give index 0 a special meaning.
    let mut v = vec![if r.chance(1, 6) { string(r, Size::Tiny) } else { vec![] }];
    // Many strings: mostly short ones.
    for _ in 0..n {
        v.push(if n > 300 && !r.chance(1, 50) { format!("k{}", r.below(1 << 20)).into_bytes() } else { string(r, cfg.size) });
    }
    v
}

pub fn sid(r: &mut Rng, n: usize) -> Option<u32> {
    // index 0 is the delimiter
    if n < 2 {
        return None;
    }
    Some(match r.below(4) {
        0 => n as u32 - 1,
        1 => 1 + r.us((n - 1).min(3)) as u32,
        _ => 1 + r.us(n - 1) as u32,
    })
}

pub fn tags(r: &mut Rng, nstr: usize, cfg: &Cfg) -> TagsM {
    let n = match r.below(12) {
        0..=4 => 0,
        5..=10 => 1 + r.us(4),
        _ => match cfg.size {
            Size::Tiny => 2,
            Size::Small => *r.pick(&[5usize, 10, 16, 40]),
            Size::Medium => *r.pick(&[10usize, 64, 127, 128, 129]),
            Size::Large => *r.pick(&[20usize, 64, 127, 128, 255, 256, 300]),
        },
    };
    (0..n).filter_map(|_| Some((sid(r, nstr)?, sid(r, nstr)?))).collect()
}

/// Tags of elements other than dense nodes: may use index 0.
pub fn plain_tags(r: &mut Rng, nstr: usize, cfg: &Cfg) -> TagsM {
    let mut t = tags(r, nstr, cfg);
    if nstr > 0 && r.chance(1, 8) {
        if t.is_empty() {
            t.push((0, 0));
        }
        for x in &mut t {
            for s in [&mut x.0, &mut x.1] {
                if r.chance(1, 4) {
                    *s = 0;
                }
            }
        }
    }
    t
}

/// Pattern in which ids (or references) of one list develop.
#[derive(Clone, Copy, Debug)]
pub enum Ids {
    Seq,
    Desc,
    Near,
    Wild,
    Zigzag,
    Same,
    Small,
}

pub fn ids_mode(r: &mut Rng, cfg: &Cfg) -> Ids {
    if cfg.connected {
        return *r.pick(&[Ids::Small, Ids::Small, Ids::Small, Ids::Seq, Ids::Zigzag]);
    }
    *r.pick(&[Ids::Seq, Ids::Seq, Ids::Desc, Ids::Near, Ids::Wild, Ids::Wild, Ids::Zigzag, Ids::Same, Ids::Small])
}

pub struct IdGen {
    mode: Ids,
    cur: i64,
    n: u64,
    connected: bool,
}

impl IdGen {
    pub fn new(r: &mut Rng, cfg: &Cfg) -> IdGen {
        let mode = ids_mode(r, cfg);
        let cur = if cfg.connected {
            r.range(-40, 40)
        } else {
            match r.below(6) {
                0 => r.range(-10, 10),
                1 => *r.pick(&[(1i64 << 31) - 3, (1 << 32) - 3, -(1 << 31) + 3, (1 << 53) - 2, 1 << 33, -(1 << 32)]),
                2 => r.mag(61),
                _ => r.range(1, 1 << 34),
            }
        };
        IdGen { mode, cur, n: 0, connected: cfg.connected }
    }
    /// For ids that are not delta coded: now and then at the end of the 64-bit range.
    pub fn next_plain(&mut self, r: &mut Rng) -> i64 {
        let c = self.next(r);
        if !self.connected && r.chance(1, 40) {
            return *r.pick(&[i64::MIN, i64::MAX, i64::MIN + 1, i64::MAX - 1]);
        }
        c
    }
    pub fn next(&mut self, r: &mut Rng) -> i64 {
        self.n += 1;
        if !self.connected {
            if let Some(x) = dict::num(r, 100, 1 << 61) {
                return if r.chance(1, 4) { -x } else { x };
            }
        }
        let c = self.cur;
        match self.mode {
            Ids::Seq => self.cur += 1,
            Ids::Desc => self.cur -= 1,
            Ids::Near => self.cur += r.range(-200, 300),
            Ids::Wild => self.cur = r.mag(62),
            Ids::Zigzag => self.cur = -self.cur + r.range(-2, 2),
            Ids::Same => {}
            Ids::Small => self.cur = r.range(-60, 60),
        }
        self.cur = self.cur.clamp(-(1 << 62), 1 << 62);
        c
    }
}

/// Raw coordinate so that gran * raw + off stays within i64 and deltas do, too.
pub fn raw_coord(r: &mut Rng, gran: i64, off: i64, max_nano: i64) -> i64 {
    let lim = ((i64::MAX as i128 - (off as i128).abs()) / gran as i128).min(1 << 62) as i64;
    if let Some(x) = dict::num(r, 40, lim) {
        return if r.chance(1, 4) { -x } else { x };
    }
    match r.below(10) {
        0 => r.range(-3, 3),
        1 => r.mag(62).clamp(-lim, lim),
        2 => *r.pick(&[lim, -lim, 0, 1, -1]),
        _ => {
            let nano = r.range(-max_nano, max_nano);
            (((nano as i128 - off as i128) / gran as i128) as i64).clamp(-lim, lim)
        }
    }
}

pub struct BlkP {
    pub gran: i64,
    pub lat_off: i64,
    pub lon_off: i64,
    pub date_gran: i64,
    pub nstr: usize,
}

impl BlkP {
    pub fn of(b: &BlockM) -> BlkP {
        BlkP {
            gran: b.gran.unwrap_or(100) as i64,
            lat_off: b.lat_off.unwrap_or(0),
            lon_off: b.lon_off.unwrap_or(0),
            date_gran: b.date_gran.unwrap_or(1000) as i64,
            nstr: b.strings.len(),
        }
    }
    pub fn lat(&self, r: &mut Rng) -> i64 {
        raw_coord(r, self.gran, self.lat_off, 90_000_000_000)
    }
    pub fn lon(&self, r: &mut Rng) -> i64 {
        raw_coord(r, self.gran, self.lon_off, 180_000_000_000)
    }
    pub fn ts(&self, r: &mut Rng) -> i64 {
        let lim = (i64::MAX / self.date_gran).min(1 << 62);
        if let Some(x) = dict::num(r, 40, lim) {
            return if r.chance(1, 4) { -x } else { x };
        }
        match r.below(6) {
            0 => r.range(-2, 2),
            1 => r.mag(62).clamp(-lim, lim),
            2 => *r.pick(&[lim, -lim, (1i64 << 31) - 1, 1 << 31, 1 << 32]).min(&lim),
            _ => r.range(1_100_000_000, 1_900_000_000).min(lim),
        }
    }
}

pub fn info(r: &mut Rng, p: &BlkP, full: bool) -> InfoM {
    let f = |r: &mut Rng| full || r.chance(2, 3);
    let i32v = |r: &mut Rng, full: bool| -> i32 {
        if let Some(x) = dict::num(r, 20, 1 << 29) {
            return x as i32;
        }
        match r.below(6) {
            0 => *r.pick(&[0, -1, 1, 127, 128, 255, 256, 65535, 65536]),
            1 if full => r.range(-(1 << 30), 1 << 30) as i32,
            1 => *r.pick(&[i32::MAX, i32::MIN, i32::MAX - 1]),
            _ => r.range(0, 20_000_000) as i32,
        }
    };
    InfoM {
        version: f(r).then(|| if r.chance(1, 5) { i32v(r, false) } else { r.range(1, 30) as i32 }),
        timestamp: f(r).then(|| p.ts(r)),
        changeset: f(r).then(|| if r.chance(1, 4) { r.mag(62) } else { r.range(0, 1 << 28) }),
        uid: f(r).then(|| i32v(r, full)),
        user_sid: if p.nstr > 0 { f(r).then(|| if r.chance(1, 5) { 0 } else { sid(r, p.nstr).unwrap_or(0) }) } else { full.then_some(0) },
        visible: if r.chance(1, 2) { None } else { Some(r.chance(1, 2)) },
    }
}

pub fn node(r: &mut Rng, id: i64, p: &BlkP, cfg: &Cfg) -> NodeM {
    NodeM { id, lat: p.lat(r), lon: p.lon(r), tags: plain_tags(r, p.nstr, cfg), info: (cfg.meta && r.chance(1, 2)).then(|| info(r, p, false)) }
}

pub fn dense(r: &mut Rng, n: usize, p: &BlkP, cfg: &Cfg) -> DenseM {
    let mode = if !cfg.meta { DInfo::None } else { *r.pick(&[DInfo::None, DInfo::NoVisible, DInfo::Visible]) };
    // Metadata of dense nodes includes a user: needs a string table.
    let mode = if p.nstr == 0 { DInfo::None } else { mode };
    let with_kv = r.chance(2, 3);
    let no_tags = r.chance(1, 5);
    let mut g = IdGen::new(r, cfg);
    let nodes = (0..n)
        .map(|_| {
            let id = g.next(r);
            NodeM {
                id,
                lat: p.lat(r),
                lon: p.lon(r),
                tags: if with_kv && !no_tags { tags(r, p.nstr, cfg) } else { vec![] },
                info: (mode != DInfo::None).then(|| info(r, p, true)),
            }
        })
        .collect();
    DenseM { nodes, with_kv, info: mode }
}

pub fn list_len(r: &mut Rng, size: Size) -> usize {
    if let Some(x) = dict::num(r, 40, limit(size)) {
        return x as usize;
    }
    match size {
        Size::Tiny => r.us(4),
        Size::Small => *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 12, 15, 16, 17, 40, 63, 64, 65]),
        Size::Medium => *r.pick(&[0usize, 1, 2, 5, 20, 100, 127, 128, 129, 255, 256, 257, 600]),
        Size::Large => *r.pick(&[0usize, 2, 10, 100, 255, 256, 257, 1000, 1999, 2000, 2001, 4096, 5000]),
    }
}

pub fn way(r: &mut Rng, id: i64, p: &BlkP, cfg: &Cfg, max: usize) -> WayM {
    let n = list_len(r, cfg.size).min(max);
    let mut g = IdGen::new(r, cfg);
    let mut refs: Vec<i64> = (0..n).map(|_| g.next(r)).collect();
    if n > 2 && r.chance(1, 3) {
        refs[n - 1] = refs[0]; // closed
    }
    let locs = r.chance(1, 3).then(|| (0..n).map(|_| (p.lat(r), p.lon(r))).collect());
    WayM { id, tags: plain_tags(r, p.nstr, cfg), info: (cfg.meta && r.chance(1, 2)).then(|| info(r, p, false)), refs, locs }
}

pub fn rel(r: &mut Rng, id: i64, p: &BlkP, cfg: &Cfg, max: usize) -> RelM {
    let n = if p.nstr == 0 { 0 } else { list_len(r, cfg.size).min(max) };
    let mut g = IdGen::new(r, cfg);
    let members = (0..n)
        .map(|_| {
            let role = if r.chance(1, 4) { 0 } else { sid(r, p.nstr).unwrap_or(0) };
            (r.us(3) as u32, g.next(r), role)
        })
        .collect();
    RelM { id, tags: plain_tags(r, p.nstr, cfg), info: (cfg.meta && r.chance(1, 2)).then(|| info(r, p, false)), members }
}

pub fn group(r: &mut Rng, p: &BlkP, cfg: &Cfg) -> GroupM {
    let mut g = GroupM::default();
    if cfg.odd_groups {
        match r.below(24) {
            0 => return g,
            1 => {
                g.changesets = (0..count(r, Size::Tiny)).map(|_| r.mag(50)).collect();
                return g;
            }
            2 => {
                g.dense = Some(DenseM { nodes: vec![], with_kv: false, info: DInfo::None });
                return g;
            }
            _ => {}
        }
    }
    let kinds = if cfg.mixed_groups && r.chance(1, 3) { 2 + r.us(3) } else { 1 };
    for _ in 0..kinds {
        let total: u64 = cfg.kinds.iter().sum();
        let mut x = r.below(total);
        let k = cfg.kinds.iter().position(|w| if x < *w { true } else { x -= w; false }).unwrap();
        let n = count(r, cfg.size);
        let mut ids = IdGen::new(r, cfg);
        // budget for the sum of list lengths
        let mut left = 60_000usize;
        match k {
            0 => g.nodes = (0..n.min(4200)).map(|_| { let id = ids.next_plain(r); node(r, id, p, cfg) }).collect(),
            1 => g.dense = Some(dense(r, n, p, cfg)),
            2 => {
                g.ways = (0..n.min(4200))
                    .map(|_| {
                        let id = ids.next_plain(r);
                        let w = way(r, id, p, cfg, left.min(5000));
                        left = left.saturating_sub(w.refs.len());
                        w
                    })
                    .collect()
            }
            _ => {
                g.rels = (0..n.min(4200))
                    .map(|_| {
                        let id = ids.next_plain(r);
                        let w = rel(r, id, p, cfg, left.min(5000));
                        left = left.saturating_sub(w.members.len());
                        w
                    })
                    .collect()
            }
        }
    }
    g
}

pub fn block_params(r: &mut Rng, cfg: &Cfg) -> BlockM {
    let mut b = BlockM { strings: strings(r, cfg), ..Default::default() };
    if r.chance(1, 12) {
        b.strings.clear();
    }
    if r.chance(1, 2) {
        b.gran = Some(*r.pick(&[100, 1, 10, 1000, 7, 99, 101, 10000, 1_000_000, i32::MAX]));
        if let Some(x) = dict::num(r, 12, i32::MAX as i64) {
            b.gran = Some(x as i32);
        }
    }
    for o in [&mut b.lat_off, &mut b.lon_off] {
        if r.chance(1, 2) {
            *o = Some(match r.below(4) {
                0 => 0,
                1 => r.range(-180_000_000_000, 180_000_000_000),
                2 => r.mag(61),
                _ => dict::num(r, 3, 1 << 61).unwrap_or_else(|| r.range(-1000, 1000)),
            });
        }
    }
    if r.chance(1, 2) {
        b.date_gran = Some(*r.pick(&[1000, 1, 10, 100, 60000, 999, i32::MAX]));
        if let Some(x) = dict::num(r, 12, i32::MAX as i64) {
            b.date_gran = Some(x as i32);
        }
    }
    b
}

pub fn block(r: &mut Rng, cfg: &Cfg) -> BlockM {
    let mut b = block_params(r, cfg);
    let p = BlkP::of(&b);
    let n = match cfg.size {
        Size::Tiny => r.us(3),
        Size::Small => *r.pick(&[0usize, 1, 1, 2, 3, 4, 6]),
        Size::Medium => *r.pick(&[1usize, 2, 4, 8, 16]),
        Size::Large => *r.pick(&[1usize, 2, 3]),
    };
    b.groups = (0..n).map(|_| group(r, &p, cfg)).collect();
    if cfg.size == Size::Medium && r.chance(1, 4) {
        // many small groups
        let c = Cfg { size: Size::Tiny, ..cfg.clone() };
        let n = *r.pick(&[33usize, 64, 127, 128, 129, 255, 256, 257, 300]);
        b.groups = (0..n).map(|_| group(r, &p, &c)).collect();
    }
    b
}

pub fn comp(r: &mut Rng, cfg: &Cfg) -> Comp {
    if !cfg.compress {
        return Comp::Raw;
    }
    match r.below(10) {
        0..=2 => Comp::Raw,
        3 => Comp::Own(Deflate::Stored),
        4 => Comp::Own(Deflate::Fixed),
        5 => Comp::Own(Deflate::Dynamic),
        6 => Comp::Own(Deflate::Mixed),
        _ => Comp::Lib(r.below(10) as u32),
    }
}

/// Type strings that are neither of the two known ones, some of them similar.
pub const UNKNOWN_TYPES: &[&str] = &[
    "", "x", "OSMdata", "osmdata", "OSMData ", "OSMDat", "OSMDataX", "OSMHeader2", "OSMHEADER", " OSMHeader", "OSMHeade", "_reserved", "OSMRelation", "Ünknown",
    "OSMData\u{0}", "Header", "Data", "OSM",
];

/// A type other than the two known ones.
pub fn unknown_type(r: &mut Rng) -> String {
    if r.chance(1, 8) {
        // Long, with characters across any byte position
        let n = *r.pick(&[3usize, 20, 32, 60, 64, 127, 128, 129, 255, 256, 300, 1000, 1024, 4096]);
        let c = *r.pick(&["T", "é", "→", "😀"]);
        return format!("{}{}", &"OSMData"[..r.us(8)], c.repeat(n / c.len() + 1));
    }
    match dict::text(r, 5) {
        Some(t) if t != "OSMData" && t != "OSMHeader" => return t.to_string(),
        _ => {}
    }
    r.pick(UNKNOWN_TYPES).to_string()
}

pub fn blob_of(r: &mut Rng, cfg: &Cfg, ty: &str, payload: Payload) -> BlobM {
    BlobM {
        ty: ty.into(),
        indexdata: match r.below(6) {
            0 => Some(vec![]),
            1 => Some((0..*r.pick(&[1usize, 5, 127, 128, 300, 2000])).map(|i| i as u8).collect()),
            _ => None,
        },
        comp: comp(r, cfg),
        raw_size: if r.chance(1, 2) { RawSize::Exact } else { RawSize::Absent },
        payload,
        style: if cfg.style { Style::random(r) } else { Style::canonical() },
        exact: (r.chance(1, 16).then(|| boundary(r, cfg.size)), r.chance(1, 10).then(|| boundary(r, cfg.size))),
    }
}

/// A raw size that is not that of the content.
pub fn wrong_size(r: &mut Rng) -> RawSize {
    RawSize::Wrong(match r.below(8) {
        0 => *r.pick(&[-1, i32::MIN, i32::MAX, 0, 1 << 25, (1 << 25) - 1]),
        1 => r.range(0, 40) as i32,
        2..=4 => r.range(0, 2000) as i32,
        _ => r.range(1000, 100_000) as i32,
    })
}

/// Sizes at which something may change.
pub fn boundary(r: &mut Rng, size: Size) -> usize {
    if let Some(x) = dict::num(r, 2, (limit(size) * 30).min(60_000)) {
        return x as usize;
    }
    let max = match size {
        Size::Tiny => 9,
        Size::Small => 13,
        _ => 15,
    };
    (1usize << r.range(5, max)) + r.us(3) - 1
}

pub fn data_blob(r: &mut Rng, cfg: &Cfg, b: BlockM) -> BlobM {
    blob_of(r, cfg, "OSMData", Payload::Data(Arc::new(b)))
}

pub fn header(r: &mut Rng) -> HeaderM {
    // Nothing at all: the block is zero bytes long.
    if r.chance(1, 12) {
        return HeaderM::default();
    }
    let s = |r: &mut Rng| String::from_utf8(string(r, Size::Small)).unwrap();
    let i = |r: &mut Rng| match r.below(4) {
        0 => 0,
        1 => *r.pick(&[i64::MAX, i64::MIN, -1, 1]),
        _ => r.mag(62),
    };
    HeaderM {
        bbox: r.chance(1, 2).then(|| {
            let mut e = || match r.below(5) {
                0 => 0,
                1 => r.mag(62),
                2 => dict::num(r, 3, 1 << 61).unwrap_or_else(|| r.range(-1000, 1000)),
                _ => r.range(-180_000_000_000, 180_000_000_000),
            };
            [e(), e(), e(), e()]
        }),
        required: (0..r.us(5)).map(|_| if r.chance(1, 2) { r.pick(&["OsmSchema-V0.6", "DenseNodes", "HistoricalInformation"]).to_string() } else { s(r) }).collect(),
        optional: (0..r.us(5)).map(|_| if r.chance(1, 2) { r.pick(&["Has_Metadata", "Sort.Type_then_ID", "LocationsOnWays"]).to_string() } else { s(r) }).collect(),
        program: r.chance(1, 2).then(|| s(r)),
        source: r.chance(1, 2).then(|| s(r)),
        rep_ts: r.chance(1, 2).then(|| i(r)),
        rep_seq: r.chance(1, 2).then(|| i(r)),
        rep_url: r.chance(1, 2).then(|| s(r)),
    }
}

pub fn header_blob(r: &mut Rng, cfg: &Cfg) -> BlobM {
    let h = header(r);
    let bare = h == HeaderM::default();
    let mut b = blob_of(r, cfg, "OSMHeader", Payload::Header(h));
    if bare && r.chance(1, 2) {
        b.comp = Comp::Raw;
        b.style = Style::canonical();
    }
    b
}

pub fn unknown_blob(r: &mut Rng, cfg: &Cfg) -> BlobM {
    let ty = &unknown_type(r)[..];
    match r.below(4) {
        // A blob without content: data size 0
        0 => blob_of(r, cfg, ty, Payload::Message(vec![])),
        // Looks like data, but is not to be read.
        1 => {
            let b = block(r, &Cfg { size: Size::Tiny, ..cfg.clone() });
            blob_of(r, cfg, ty, Payload::Data(Arc::new(b)))
        }
        // Not even valid content
        2 => {
            let n = r.us(40);
            let c = (0..n).map(|_| r.u64() as u8).collect();
            blob_of(r, cfg, ty, Payload::Content(c))
        }
        _ => {
            let s = string(r, cfg.size);
            blob_of(r, cfg, ty, Payload::Content(s))
        }
    }
}

pub fn file(r: &mut Rng, cfg: &Cfg) -> FileM {
    if let Some(f) = sized(r, cfg.size) {
        return f;
    }
    let mut f = FileM::default();
    let n = match cfg.size {
        Size::Tiny => r.us(4),
        Size::Small => r.us(8),
        Size::Medium => *r.pick(&[1usize, 3, 6, 12]),
        Size::Large => *r.pick(&[1usize, 2, 4]),
    };
    if !r.chance(1, 8) {
        f.blobs.push(header_blob(r, cfg));
    }
    for _ in 0..n {
        f.blobs.push(match r.below(10) {
            0 if cfg.unknown_blobs => unknown_blob(r, cfg),
            1 if cfg.unknown_blobs => header_blob(r, cfg),
            _ => {
                let c = if r.chance(1, 4) { Cfg { size: Size::Tiny, ..cfg.clone() } } else { cfg.clone() };
                let b = block(r, &c);
                data_blob(r, cfg, b)
            }
        });
    }
    // Many tiny blobs
    if cfg.size == Size::Medium && r.chance(1, 4) {
        let c = Cfg { size: Size::Tiny, plain_strings: true, ..cfg.clone() };
        let n = *r.pick(&[30usize, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400]);
        let n = dict::num(r, 6, 3000).map_or(n, |x| x as usize);
        for _ in 0..n {
            if r.chance(1, 20) {
                f.blobs.push(unknown_blob(r, &c));
            } else {
                let b = block(r, &c);
                f.blobs.push(data_blob(r, &c, b));
            }
        }
    }
    f
}

const SHAPES: usize = 14;

/// Sometimes a file in which something has exactly one of the lengths that new constants of the
/// code suggest.
pub fn sized(r: &mut Rng, size: Size) -> Option<FileM> {
    let l = dict::lengths();
    if l.is_empty() || size == Size::Tiny || !r.chance(1, if size == Size::Small { 4 } else { 2 }) {
        return None;
    }
    let n = *r.pick(l);
    (n as i64 <= limit(size) * 7).then(|| sized_file(r, n))
}

fn sized_file(r: &mut Rng, n: usize) -> FileM {
    let cfg = Cfg::sized(Size::Tiny);
    let mut b = block_params(r, &cfg);
    if b.strings.len() < 3 {
        b.strings = vec![vec![], b"building".to_vec(), b"yes".to_vec()];
    }
    let shape = r.us(SHAPES);
    if shape == 9 {
        // Many strings
        b.strings = (0..n.max(3)).map(|k| if k == 0 { vec![] } else { format!("s{k}").into_bytes() }).collect();
    } else if shape == 10 {
        b.strings.push(vec![b'l'; n]);
    }
    let p = BlkP::of(&b);
    let last = p.nstr as u32 - 1;
    let mut ids = IdGen::new(r, &cfg);
    let one_way = |r: &mut Rng, ids: &mut IdGen, n: usize| {
        let id = ids.next_plain(r);
        let mut w = way(r, id, &p, &cfg, 0);
        w.refs = (0..n).map(|_| ids.next(r)).collect();
        w.locs = r.chance(1, 2).then(|| (0..n).map(|_| (p.lat(r), p.lon(r))).collect());
        w
    };
    let one_rel = |r: &mut Rng, ids: &mut IdGen, n: usize| {
        let id = ids.next_plain(r);
        let mut x = rel(r, id, &p, &cfg, 0);
        x.members = (0..n).map(|_| (r.us(3) as u32, ids.next(r), sid(r, p.nstr).unwrap())).collect();
        x
    };
    // The tag that uses the last string
    let tag = |r: &mut Rng| (sid(r, p.nstr).unwrap(), last);
    let mut groups = vec![];
    let mut blobs = vec![];
    match shape {
        0 => groups.push(GroupM { nodes: (0..n).map(|_| { let id = ids.next_plain(r); node(r, id, &p, &cfg) }).collect(), ..Default::default() }),
        1 => groups.push(GroupM { dense: Some(dense(r, n, &p, &cfg)), ..Default::default() }),
        2 => groups.push(GroupM { ways: (0..n).map(|k| one_way(r, &mut ids, k % 4)).collect(), ..Default::default() }),
        3 => groups.push(GroupM { rels: (0..n).map(|k| one_rel(r, &mut ids, k % 4)).collect(), ..Default::default() }),
        4 => groups.push(GroupM { ways: vec![one_way(r, &mut ids, 2), one_way(r, &mut ids, n), one_way(r, &mut ids, 3)], ..Default::default() }),
        5 => groups.push(GroupM { rels: vec![one_rel(r, &mut ids, 2), one_rel(r, &mut ids, n), one_rel(r, &mut ids, 3)], ..Default::default() }),
        6 => {
            // Many tags
            let t = |r: &mut Rng| -> TagsM { (0..n).map(|_| tag(r)).collect() };
            let mut d = dense(r, 3, &p, &cfg);
            d.with_kv = true;
            d.nodes[1].tags = t(r);
            groups.push(GroupM { dense: Some(d), ..Default::default() });
            let mut x = node(r, 5, &p, &cfg);
            x.tags = t(r);
            groups.push(GroupM { nodes: vec![x], ..Default::default() });
            let mut x = one_way(r, &mut ids, 2);
            x.tags = t(r);
            groups.push(GroupM { ways: vec![x], ..Default::default() });
            let mut x = one_rel(r, &mut ids, 2);
            x.tags = t(r);
            groups.push(GroupM { rels: vec![x], ..Default::default() });
        }
        7 => {
            // Many groups
            for k in 0..n.min(70_000) {
                groups.push(match k % 4 {
                    0 => GroupM { nodes: vec![node(r, k as i64, &p, &cfg)], ..Default::default() },
                    1 => GroupM { dense: Some(dense(r, 1, &p, &cfg)), ..Default::default() },
                    2 => GroupM { ways: vec![one_way(r, &mut ids, 1)], ..Default::default() },
                    _ => GroupM { rels: vec![one_rel(r, &mut ids, 1)], ..Default::default() },
                });
            }
        }
        8 => {
            // Many blobs
            for k in 0..n.min(20_000) {
                let node = NodeM { id: k as i64, lat: k as i64, lon: -1, tags: vec![], info: None };
                let way = WayM { id: k as i64, tags: vec![], info: None, refs: vec![k as i64, 5, k as i64 + 1], locs: None };
                let g = if k % 3 == 2 { GroupM { ways: vec![way], ..Default::default() } } else { GroupM { nodes: vec![node], ..Default::default() } };
                blobs.push(BlobM::data(BlockM { strings: vec![vec![]], groups: vec![g], ..Default::default() }));
            }
        }
        11 => {
            // Ids with that value
            let w = |id: i64| WayM { id, tags: vec![], info: None, refs: vec![id, 1, id, -id], locs: None };
            let m = n as i64;
            let all = [m, -m, m - 1, m + 1, 0, m << 20];
            let nodes: Vec<NodeM> = all.iter().map(|id| node(r, *id, &p, &cfg)).collect();
            groups.push(GroupM { dense: Some(DenseM { nodes: nodes.iter().map(|x| NodeM { info: None, tags: vec![], ..x.clone() }).collect(), with_kv: false, info: DInfo::None }), ..Default::default() });
            groups.push(GroupM { nodes, ..Default::default() });
            groups.push(GroupM { ways: all.iter().map(|id| w(*id)).collect(), ..Default::default() });
            groups.push(GroupM { rels: all.iter().map(|id| RelM { id: *id, tags: vec![], info: None, members: vec![(0, *id, 1), (1, -id, last), (2, 1, 0)] }).collect(), ..Default::default() });
        }
        12 => {
            // The last element of the block is the decisive one
            groups.push(GroupM { nodes: (0..n / 2).map(|k| NodeM { id: k as i64, lat: 1, lon: 2, tags: vec![], info: None }).collect(), ..Default::default() });
            groups.push(GroupM { ways: (0..n - n / 2).map(|_| one_way(r, &mut ids, 1)).collect(), ..Default::default() });
        }
        _ => {}
    }
    // The nodes of the ways are stored as well.
    let mut refs: Vec<i64> = groups.iter().flat_map(|g| &g.ways).flat_map(|w| w.refs.iter().copied()).collect();
    if !refs.is_empty() && r.chance(2, 3) {
        refs.sort_unstable();
        refs.dedup();
        let nodes = refs.iter().map(|id| NodeM { id: *id, lat: 1, lon: 2, tags: vec![], info: None }).collect();
        let dense = r.chance(1, 2) && refs.iter().all(|x| x.unsigned_abs() < 1 << 62);
        let g = if dense { GroupM { dense: Some(DenseM { nodes, with_kv: false, info: DInfo::None }), ..Default::default() } } else { GroupM { nodes, ..Default::default() } };
        blobs.push(BlobM::data(BlockM { strings: vec![vec![]], groups: vec![g], ..Default::default() }));
    }
    if shape != 12 {
        // Something of everything behind
        let t = vec![(1, last)];
        groups.push(GroupM { dense: Some(DenseM { nodes: vec![NodeM { id: 3, lat: 4, lon: 5, tags: t.clone(), info: None }, NodeM { id: 4, lat: 4, lon: 5, tags: vec![], info: None }], with_kv: true, info: DInfo::None }), ..Default::default() });
        groups.push(GroupM { nodes: vec![NodeM { id: 7, lat: 4, lon: 5, tags: t.clone(), info: Some(info(r, &p, false)) }], ..Default::default() });
        groups.push(GroupM { ways: vec![WayM { id: 9, tags: t.clone(), info: Some(info(r, &p, false)), refs: vec![7, 3], locs: None }], ..Default::default() });
        groups.push(GroupM { rels: vec![RelM { id: 9, tags: t, info: Some(info(r, &p, false)), members: vec![(1, 7, last), (2, 3, 1)] }], ..Default::default() });
    }
    b.groups = groups;
    let mut x = if shape == 13 { BlobM::data(b) } else { data_blob(r, &cfg, b) };
    if shape == 13 {
        // A blob message of that size
        x.exact.1 = Some(n.min(60_000));
        x.exact.0 = Some(n.min(60_000));
    }
    blobs.push(x);
    blobs.push(BlobM::data(BlockM { strings: vec![vec![]], groups: vec![GroupM { ways: vec![WayM { id: 1, tags: vec![], info: None, refs: vec![7, 3], locs: None }], ..Default::default() }], ..Default::default() }));
    FileM { blobs }
}

/// A short description for samples.
pub fn describe(f: &FileM, e: &Enc) -> String {
    let mut s = format!("{} bytes, {} blobs:", e.bytes.len(), f.blobs.len());
    for b in f.blobs.iter().take(6) {
        let what = match &b.payload {
            Payload::Header(_) => "header".to_string(),
            Payload::Data(d) => format!(
                "{} groups {} nodes {} dense {} ways {} rels {} strings",
                d.groups.len(),
                d.groups.iter().map(|g| g.nodes.len()).sum::<usize>(),
                d.groups.iter().map(|g| g.dense.as_ref().map_or(0, |x| x.nodes.len())).sum::<usize>(),
                d.groups.iter().map(|g| g.ways.len()).sum::<usize>(),
                d.groups.iter().map(|g| g.rels.len()).sum::<usize>(),
                d.strings.len()
            ),
            Payload::Content(c) => format!("{} bytes content", c.len()),
            Payload::Message(c) => format!("{} bytes message", c.len()),
        };
        s += &format!(" [{:?} {:?} {what}]", b.ty, b.comp);
    }
    s
}
