//! Reference model of OSM PBF data: what is stored, how it is written, what must be read.

use crate::pb::*;
use crate::rng::{hash_bytes, mix, Rng};
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct InfoM {
    pub version: Option<i32>,
    pub timestamp: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i32>,
    pub user_sid: Option<u32>,
    pub visible: Option<bool>,
}

pub type TagsM = Vec<(u32, u32)>;

#[derive(Clone, Debug)]
pub struct NodeM {
    pub id: i64,
    pub lat: i64,
    pub lon: i64,
    pub tags: TagsM,
    pub info: Option<InfoM>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DInfo {
    None,
    NoVisible,
    Visible,
}

/// Nodes of a dense group: metadata comes from `info` of each node (all fields set) if the mode
/// says so.
#[derive(Clone, Debug)]
pub struct DenseM {
    pub nodes: Vec<NodeM>,
    pub with_kv: bool,
    pub info: DInfo,
}

#[derive(Clone, Debug)]
pub struct WayM {
    pub id: i64,
    pub tags: TagsM,
    pub info: Option<InfoM>,
    pub refs: Vec<i64>,
    pub locs: Option<Vec<(i64, i64)>>,
}

#[derive(Clone, Debug)]
pub struct RelM {
    pub id: i64,
    pub tags: TagsM,
    pub info: Option<InfoM>,
    /// type, id, role sid
    pub members: Vec<(u32, i64, u32)>,
}

#[derive(Clone, Debug, Default)]
pub struct GroupM {
    pub nodes: Vec<NodeM>,
    pub dense: Option<DenseM>,
    pub ways: Vec<WayM>,
    pub rels: Vec<RelM>,
    pub changesets: Vec<i64>,
}

impl GroupM {
    pub fn kinds(&self) -> usize {
        (!self.nodes.is_empty()) as usize
            + self.dense.as_ref().map_or(false, |d| !d.nodes.is_empty()) as usize
            + (!self.ways.is_empty()) as usize
            + (!self.rels.is_empty()) as usize
    }
    pub fn count(&self) -> usize {
        self.nodes.len() + self.dense.as_ref().map_or(0, |d| d.nodes.len()) + self.ways.len() + self.rels.len()
    }
}

#[derive(Clone, Debug, Default)]
pub struct BlockM {
    pub strings: Vec<Vec<u8>>,
    pub gran: Option<i32>,
    pub lat_off: Option<i64>,
    pub lon_off: Option<i64>,
    pub date_gran: Option<i32>,
    pub groups: Vec<GroupM>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct HeaderM {
    pub bbox: Option<[i64; 4]>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub rep_ts: Option<i64>,
    pub rep_seq: Option<i64>,
    pub rep_url: Option<String>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Comp {
    Raw,
    Own(Deflate),
    /// flate2's encoder with this level
    Lib(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RawSize {
    Absent,
    Exact,
    /// Says something else
    Wrong(i32),
}

#[derive(Clone, Debug)]
pub enum Payload {
    Header(HeaderM),
    Data(Arc<BlockM>),
    /// Uncompressed content bytes
    Content(Vec<u8>),
    /// The bytes of the blob message itself
    Message(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct BlobM {
    pub ty: String,
    pub indexdata: Option<Vec<u8>>,
    pub comp: Comp,
    pub raw_size: RawSize,
    pub payload: Payload,
    pub style: Style,
    /// Sizes of header and blob message, reached with an unknown field
    pub exact: (Option<usize>, Option<usize>),
}

impl BlobM {
    pub fn data(b: BlockM) -> BlobM {
        BlobM::data_arc(Arc::new(b))
    }
    pub fn data_arc(b: Arc<BlockM>) -> BlobM {
        BlobM { ty: "OSMData".into(), indexdata: None, comp: Comp::Raw, raw_size: RawSize::Exact, payload: Payload::Data(b), style: Style::canonical(), exact: (None, None) }
    }
    pub fn header(h: HeaderM) -> BlobM {
        BlobM { ty: "OSMHeader".into(), indexdata: None, comp: Comp::Raw, raw_size: RawSize::Exact, payload: Payload::Header(h), style: Style::canonical(), exact: (None, None) }
    }
    pub fn is_data(&self) -> bool {
        self.ty == "OSMData"
    }
    pub fn block(&self) -> Option<&Arc<BlockM>> {
        match &self.payload {
            Payload::Data(b) if self.is_data() => Some(b),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct FileM {
    pub blobs: Vec<BlobM>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Lay {
    pub off: u64,
    pub hdr: u64,
    pub data: u64,
}
impl Lay {
    pub fn data_off(&self) -> u64 {
        self.off + 4 + self.hdr
    }
    pub fn end(&self) -> u64 {
        self.data_off() + self.data
    }
}

#[derive(Clone, Debug)]
pub struct Enc {
    pub bytes: Arc<Vec<u8>>,
    pub lay: Vec<Lay>,
}

// ---------------------------------------------------------------------------------------------
// writing

fn deltas(v: impl Iterator<Item = i64>) -> Vec<u64> {
    let mut prev = 0i64;
    v.map(|x| {
        let d = x.wrapping_sub(prev);
        prev = x;
        zz(d)
    })
    .collect()
}

pub fn enc_info(i: &InfoM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    if let Some(v) = i.version {
        m.varint(1, v as i64 as u64);
    }
    if let Some(v) = i.timestamp {
        m.varint(2, v as u64);
    }
    if let Some(v) = i.changeset {
        m.varint(3, v as u64);
    }
    if let Some(v) = i.uid {
        m.varint(4, v as i64 as u64);
    }
    if let Some(v) = i.user_sid {
        m.varint(5, v as u64);
    }
    if let Some(v) = i.visible {
        m.varint(6, v as u64);
    }
    m.finish(st, r)
}

fn enc_tags(m: &mut Msg, t: &TagsM, st: &Style, r: &mut Rng) {
    let k: Vec<u64> = t.iter().map(|x| x.0 as u64).collect();
    let v: Vec<u64> = t.iter().map(|x| x.1 as u64).collect();
    m.list(2, &k, st, r);
    m.list(3, &v, st, r);
}

pub fn enc_node(n: &NodeM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    m.varint(1, zz(n.id));
    enc_tags(&mut m, &n.tags, st, r);
    if let Some(i) = &n.info {
        m.bytes(4, &enc_info(i, st, r));
    }
    m.varint(8, zz(n.lat));
    m.varint(9, zz(n.lon));
    m.finish(st, r)
}

pub fn enc_way(w: &WayM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    m.varint(1, w.id as u64);
    enc_tags(&mut m, &w.tags, st, r);
    if let Some(i) = &w.info {
        m.bytes(4, &enc_info(i, st, r));
    }
    m.list(8, &deltas(w.refs.iter().copied()), st, r);
    if let Some(l) = &w.locs {
        m.list(9, &deltas(l.iter().map(|x| x.0)), st, r);
        m.list(10, &deltas(l.iter().map(|x| x.1)), st, r);
    }
    m.finish(st, r)
}

pub fn enc_rel(x: &RelM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    m.varint(1, x.id as u64);
    enc_tags(&mut m, &x.tags, st, r);
    if let Some(i) = &x.info {
        m.bytes(4, &enc_info(i, st, r));
    }
    let roles: Vec<u64> = x.members.iter().map(|m| m.2 as i32 as i64 as u64).collect();
    let types: Vec<u64> = x.members.iter().map(|m| m.0 as u64).collect();
    m.list(8, &roles, st, r);
    m.list(9, &deltas(x.members.iter().map(|m| m.1)), st, r);
    m.list(10, &types, st, r);
    m.finish(st, r)
}

pub fn enc_dense(d: &DenseM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    m.list(1, &deltas(d.nodes.iter().map(|n| n.id)), st, r);
    if d.info != DInfo::None {
        let mut im = Msg::new();
        let inf = |n: &NodeM| n.info.clone().unwrap_or_default();
        im.list(1, &d.nodes.iter().map(|n| inf(n).version.unwrap_or(0) as i64 as u64).collect::<Vec<_>>(), st, r);
        im.list(2, &deltas(d.nodes.iter().map(|n| inf(n).timestamp.unwrap_or(0))), st, r);
        im.list(3, &deltas(d.nodes.iter().map(|n| inf(n).changeset.unwrap_or(0))), st, r);
        let d32 = |v: Vec<i32>| -> Vec<u64> {
            let mut prev = 0i32;
            v.into_iter()
                .map(|x| {
                    let d = x.wrapping_sub(prev);
                    prev = x;
                    zz32(d)
                })
                .collect()
        };
        let uids = d32(d.nodes.iter().map(|n| inf(n).uid.unwrap_or(0)).collect());
        im.list(4, &uids, st, r);
        let sids = d32(d.nodes.iter().map(|n| inf(n).user_sid.unwrap_or(0) as i32).collect());
        im.list(5, &sids, st, r);
        if d.info == DInfo::Visible {
            let v: Vec<u64> = d.nodes.iter().map(|n| inf(n).visible.unwrap_or(true) as u64).collect();
            im.list(6, &v, st, r);
        }
        m.bytes(5, &im.finish(st, r));
    }
    m.list(8, &deltas(d.nodes.iter().map(|n| n.lat)), st, r);
    m.list(9, &deltas(d.nodes.iter().map(|n| n.lon)), st, r);
    if d.with_kv {
        let mut kv = vec![];
        for n in &d.nodes {
            for t in &n.tags {
                kv.push(t.0 as i32 as u64);
                kv.push(t.1 as i32 as u64);
            }
            kv.push(0);
        }
        m.list(10, &kv, st, r);
    }
    m.finish(st, r)
}

pub fn enc_group(g: &GroupM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    for n in &g.nodes {
        m.bytes(1, &enc_node(n, st, r));
    }
    if let Some(d) = &g.dense {
        m.bytes(2, &enc_dense(d, st, r));
    }
    for w in &g.ways {
        m.bytes(3, &enc_way(w, st, r));
    }
    for x in &g.rels {
        m.bytes(4, &enc_rel(x, st, r));
    }
    for c in &g.changesets {
        let mut cm = Msg::new();
        cm.varint(1, *c as u64);
        m.bytes(5, &cm.finish(st, r));
    }
    m.finish(st, r)
}

pub fn enc_block(b: &BlockM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    let mut s = Msg::new();
    for x in &b.strings {
        s.bytes(1, x);
    }
    m.bytes(1, &s.finish(&Style { unknown_fields: false, ..st.clone() }, r));
    for g in &b.groups {
        m.bytes(2, &enc_group(g, st, r));
    }
    let ex = st.explicit_defaults;
    if b.gran.is_some() || ex {
        m.varint(17, b.gran.unwrap_or(100) as i64 as u64);
    }
    if b.date_gran.is_some() || ex {
        m.varint(18, b.date_gran.unwrap_or(1000) as i64 as u64);
    }
    if b.lat_off.is_some() || ex {
        m.varint(19, b.lat_off.unwrap_or(0) as u64);
    }
    if b.lon_off.is_some() || ex {
        m.varint(20, b.lon_off.unwrap_or(0) as u64);
    }
    m.finish(st, r)
}

pub fn enc_header(h: &HeaderM, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    if let Some(b) = &h.bbox {
        let mut bm = Msg::new();
        for (i, v) in b.iter().enumerate() {
            bm.varint(1 + i as u32, zz(*v));
        }
        m.bytes(1, &bm.finish(st, r));
    }
    for s in &h.required {
        m.bytes(4, s.as_bytes());
    }
    for s in &h.optional {
        m.bytes(5, s.as_bytes());
    }
    if let Some(s) = &h.program {
        m.bytes(16, s.as_bytes());
    }
    if let Some(s) = &h.source {
        m.bytes(17, s.as_bytes());
    }
    if let Some(v) = h.rep_ts {
        m.varint(32, v as u64);
    }
    if let Some(v) = h.rep_seq {
        m.varint(33, v as u64);
    }
    if let Some(s) = &h.rep_url {
        m.bytes(34, s.as_bytes());
    }
    m.finish(st, r)
}

pub fn compress(content: &[u8], comp: Comp, r: &mut Rng) -> Vec<u8> {
    match comp {
        Comp::Raw => content.to_vec(),
        Comp::Own(k) => zlib(content, k, r),
        Comp::Lib(level) => {
            use std::io::Write;
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level));
            e.write_all(content).unwrap();
            e.finish().unwrap()
        }
    }
}

/// The blob message for this content.
pub fn enc_blob_msg(content: &[u8], comp: Comp, raw_size: RawSize, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    if comp == Comp::Raw {
        m.bytes(1, content);
    }
    // Writers may also put the size next to raw data.
    if raw_size == RawSize::Exact && (comp != Comp::Raw || st.explicit_defaults) {
        m.varint(2, content.len() as u64);
    }
    if let RawSize::Wrong(n) = raw_size {
        m.varint(2, n as i64 as u64);
    }
    if comp != Comp::Raw {
        m.bytes(3, &compress(content, comp, r));
    }
    m.finish(st, r)
}

pub fn enc_blob_header(ty: &str, indexdata: Option<&[u8]>, datasize: i64, st: &Style, r: &mut Rng) -> Vec<u8> {
    let mut m = Msg::new();
    m.bytes(1, ty.as_bytes());
    if let Some(i) = indexdata {
        m.bytes(2, i);
    }
    m.varint(3, datasize as u64);
    m.finish(st, r)
}

pub fn enc_content(b: &BlobM, r: &mut Rng) -> Option<Vec<u8>> {
    match &b.payload {
        Payload::Header(h) => Some(enc_header(h, &b.style, r)),
        Payload::Data(d) => Some(enc_block(d, &b.style, r)),
        Payload::Content(c) => Some(c.clone()),
        Payload::Message(_) => None,
    }
}

/// Appends the blob to the file bytes.
pub fn enc_blob(b: &BlobM, out: &mut Vec<u8>, r: &mut Rng) -> Lay {
    let mut data = match &b.payload {
        Payload::Message(m) => m.clone(),
        _ => {
            let c = enc_content(b, r).unwrap();
            enc_blob_msg(&c, b.comp, b.raw_size, &b.style, r)
        }
    };
    if let Some(n) = b.exact.1 {
        pad_to(&mut data, n);
    }
    let mut h = enc_blob_header(&b.ty, b.indexdata.as_deref(), data.len() as i64, &b.style, r);
    if let Some(n) = b.exact.0 {
        pad_to(&mut h, n);
    }
    put_framed(&h, &data, out)
}

/// Makes a message this long with an unknown field, if it is shorter by at least 3 bytes.
pub fn pad_to(v: &mut Vec<u8>, n: usize) {
    if v.len() + 3 > n {
        return;
    }
    varint(100 << 3 | 2, v);
    let d = n - v.len();
    if d <= 128 {
        v.push((d - 1) as u8);
    } else {
        // A varint of four bytes, whatever the value
        let x = (d - 4) as u32;
        v.extend([x as u8 | 0x80, (x >> 7) as u8 | 0x80, (x >> 14) as u8 | 0x80, (x >> 21) as u8 & 0x7f]);
    }
    v.resize(n, b'.');
}

pub fn put_framed(h: &[u8], data: &[u8], out: &mut Vec<u8>) -> Lay {
    let off = out.len() as u64;
    out.extend_from_slice(&(h.len() as u32).to_be_bytes());
    out.extend_from_slice(h);
    out.extend_from_slice(data);
    Lay { off, hdr: h.len() as u64, data: data.len() as u64 }
}

pub fn put_blob(ty: &str, indexdata: Option<&[u8]>, data: &[u8], st: &Style, out: &mut Vec<u8>, r: &mut Rng) -> Lay {
    let h = enc_blob_header(ty, indexdata, data.len() as i64, st, r);
    put_framed(&h, data, out)
}

pub fn encode(f: &FileM, r: &mut Rng) -> Enc {
    let mut out = vec![];
    let lay = f.blobs.iter().map(|b| enc_blob(b, &mut out, r)).collect();
    Enc { bytes: Arc::new(out), lay }
}

// ---------------------------------------------------------------------------------------------
// what must be observed

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Node,
    Dense,
    Way,
    Rel,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Coord {
    pub nano: (i64, i64),
    pub deg: (f64, f64),
    pub decimicro: (i32, i32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum StrE {
    Ok(String),
    Utf8 { index: usize, valid_up_to: usize, error_len: Option<usize> },
    Oob(usize),
    Other(String),
}

/// Metadata as reported: for dense nodes `present` is whether there is an info at all.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct InfoO {
    pub present: bool,
    pub version: Option<i32>,
    pub milli_ts: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i32>,
    pub user: Option<StrE>,
    pub visible: bool,
    pub deleted: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MemberO {
    pub ty: u32,
    pub id: i64,
    pub role_sid: i32,
    pub role: StrE,
}

#[derive(Clone, Debug)]
pub struct El {
    pub kind: Kind,
    pub id: i64,
    pub tags: Vec<(String, String)>,
    pub raw_tags: Vec<(u32, u32)>,
    pub info: InfoO,
    pub coord: Option<Coord>,
    pub refs: Vec<i64>,
    pub raw_refs: Vec<i64>,
    pub locs: Vec<Coord>,
    pub members: Vec<MemberO>,
    /// Disagreements between accessors, found while observing.
    pub notes: Vec<String>,
}

impl StrE {
    pub fn from_bytes(strings: &[Vec<u8>], index: usize) -> StrE {
        match strings.get(index) {
            None => StrE::Oob(index),
            Some(b) => match std::str::from_utf8(b) {
                Ok(s) => StrE::Ok(s.to_string()),
                Err(e) => StrE::Utf8 { index, valid_up_to: e.valid_up_to(), error_len: e.error_len() },
            },
        }
    }
}

impl BlockM {
    pub fn gran(&self) -> i128 {
        self.gran.unwrap_or(100) as i128
    }
    fn exp_coord(&self, lat: i64, lon: i64) -> Coord {
        let g = self.gran();
        let la = self.lat_off.unwrap_or(0) as i128 + g * lat as i128;
        let lo = self.lon_off.unwrap_or(0) as i128 + g * lon as i128;
        let (la64, lo64) = (la as i64, lo as i64); // generators keep both in range
        Coord {
            nano: (la64, lo64),
            deg: (la as f64 * 1e-9, lo as f64 * 1e-9),
            decimicro: ((la64 / 100) as i32, (lo64 / 100) as i32),
        }
    }
    /// Dense indices are signed, those of other elements are not.
    fn exp_tags(&self, t: &TagsM, dense: bool) -> (Vec<(String, String)>, Vec<(u32, u32)>) {
        let mut v = vec![];
        for (k, x) in t {
            let ix = |s: u32| if dense { s as i32 as usize } else { s as usize };
            match (StrE::from_bytes(&self.strings, ix(*k)), StrE::from_bytes(&self.strings, ix(*x))) {
                (StrE::Ok(a), StrE::Ok(b)) => v.push((a, b)),
                _ => break,
            }
        }
        (v, t.clone())
    }
    fn exp_info(&self, i: Option<&InfoM>, dense: bool) -> InfoO {
        let d = InfoM::default();
        let i = i.unwrap_or(&d);
        let vis = i.visible.unwrap_or(true);
        InfoO {
            present: true,
            version: i.version,
            milli_ts: i.timestamp.map(|t| (t as i128 * self.date_gran.unwrap_or(1000) as i128) as i64),
            changeset: i.changeset,
            uid: i.uid,
            user: i.user_sid.map(|s| StrE::from_bytes(&self.strings, if dense { s as i32 as usize } else { s as usize })),
            visible: vis,
            deleted: !vis,
        }
    }
    fn el(&self, kind: Kind, id: i64, tags: &TagsM, info: InfoO) -> El {
        let (t, raw) = self.exp_tags(tags, kind == Kind::Dense);
        El { kind, id, tags: t, raw_tags: raw, info, coord: None, refs: vec![], raw_refs: vec![], locs: vec![], members: vec![], notes: vec![] }
    }
    pub fn exp_node(&self, n: &NodeM) -> El {
        let mut e = self.el(Kind::Node, n.id, &n.tags, self.exp_info(n.info.as_ref(), false));
        e.coord = Some(self.exp_coord(n.lat, n.lon));
        e
    }
    pub fn exp_dense(&self, d: &DenseM, n: &NodeM) -> El {
        let info = if d.info == DInfo::None {
            InfoO::default()
        } else {
            let i = n.info.clone().unwrap_or_default();
            let full = InfoM {
                version: Some(i.version.unwrap_or(0)),
                timestamp: Some(i.timestamp.unwrap_or(0)),
                changeset: Some(i.changeset.unwrap_or(0)),
                uid: Some(i.uid.unwrap_or(0)),
                user_sid: Some(i.user_sid.unwrap_or(0)),
                visible: if d.info == DInfo::Visible { Some(i.visible.unwrap_or(true)) } else { None },
            };
            self.exp_info(Some(&full), true)
        };
        let none = vec![];
        let mut e = self.el(Kind::Dense, n.id, if d.with_kv { &n.tags } else { &none }, info);
        e.coord = Some(self.exp_coord(n.lat, n.lon));
        e
    }
    pub fn exp_way(&self, w: &WayM) -> El {
        let mut e = self.el(Kind::Way, w.id, &w.tags, self.exp_info(w.info.as_ref(), false));
        e.refs = w.refs.clone();
        let mut prev = 0i64;
        e.raw_refs = w
            .refs
            .iter()
            .map(|x| {
                let d = x.wrapping_sub(prev);
                prev = *x;
                d
            })
            .collect();
        if let Some(l) = &w.locs {
            e.locs = l.iter().map(|(a, b)| self.exp_coord(*a, *b)).collect();
        }
        e
    }
    pub fn exp_rel(&self, x: &RelM) -> El {
        let mut e = self.el(Kind::Rel, x.id, &x.tags, self.exp_info(x.info.as_ref(), false));
        e.members = x
            .members
            .iter()
            .map(|(t, id, role)| MemberO { ty: *t, id: *id, role_sid: *role as i32, role: StrE::from_bytes(&self.strings, *role as i32 as usize) })
            .collect();
        e
    }
    /// Expected elements of a group, by kind in the order node, dense, way, relation.
    pub fn exp_group(&self, g: &GroupM) -> [Vec<El>; 4] {
        [
            g.nodes.iter().map(|n| self.exp_node(n)).collect(),
            g.dense.iter().flat_map(|d| d.nodes.iter().map(|n| self.exp_dense(d, n)).collect::<Vec<_>>()).collect(),
            g.ways.iter().map(|w| self.exp_way(w)).collect(),
            g.rels.iter().map(|x| self.exp_rel(x)).collect(),
        ]
    }
    pub fn exp(&self) -> Vec<[Vec<El>; 4]> {
        self.groups.iter().map(|g| self.exp_group(g)).collect()
    }
    pub fn count(&self) -> usize {
        self.groups.iter().map(|g| g.count()).sum()
    }
}

/// Aspects of an element, so that a check can judge what its property is about.
pub mod facet {
    pub const ID: u32 = 1;
    pub const COORD: u32 = 2;
    pub const TAGS: u32 = 4;
    pub const INFO: u32 = 8;
    pub const REFS: u32 = 16;
    pub const LOCS: u32 = 32;
    pub const MEMBERS: u32 = 64;
    pub const ALL: u32 = 127;
}

pub fn deg_ok(exp: f64, got: f64) -> bool {
    let d = (exp - got).abs();
    d <= 1e-13 + exp.abs() * 1e-14
}

pub fn coord_diff(e: &Coord, g: &Coord) -> Option<String> {
    let fits = |n: i64| n / 100 >= i32::MIN as i64 && n / 100 <= i32::MAX as i64;
    if e.nano != g.nano {
        return Some(format!("nano coordinates {:?}, stored {:?}", g.nano, e.nano));
    }
    if !deg_ok(e.deg.0, g.deg.0) || !deg_ok(e.deg.1, g.deg.1) {
        return Some(format!("degrees {:?}, stored {:?}", g.deg, e.deg));
    }
    if (fits(e.nano.0) && e.decimicro.0 != g.decimicro.0) || (fits(e.nano.1) && e.decimicro.1 != g.decimicro.1) {
        return Some(format!("decimicro {:?}, stored {:?} (nano {:?})", g.decimicro, e.decimicro, e.nano));
    }
    None
}

fn first_diff<T: PartialEq + std::fmt::Debug>(what: &str, e: &[T], g: &[T]) -> Option<String> {
    if e == g {
        return None;
    }
    let i = e.iter().zip(g).position(|(a, b)| a != b).unwrap_or(e.len().min(g.len()));
    Some(format!("{what}: {} entries, stored {}; at {i}: {:?}, stored {:?}", g.len(), e.len(), g.get(i), e.get(i)))
}

/// None if the observed element is what is stored.
pub fn el_diff(e: &El, g: &El, facets: u32) -> Option<String> {
    let f = |b: u32| facets & b != 0;
    let body = (|| {
        if e.kind != g.kind {
            return Some(format!("kind {:?}, stored {:?}", g.kind, e.kind));
        }
        if f(facet::ID) && e.id != g.id {
            return Some(format!("id {}, stored {}", g.id, e.id));
        }
        if f(facet::COORD) {
            match (&e.coord, &g.coord) {
                (Some(a), Some(b)) => {
                    if let Some(d) = coord_diff(a, b) {
                        return Some(d);
                    }
                }
                (None, None) => {}
                _ => return Some("coordinates missing".into()),
            }
        }
        if f(facet::TAGS) {
            if let Some(d) = first_diff("tags", &e.tags, &g.tags).or_else(|| first_diff("raw tags", &e.raw_tags, &g.raw_tags)) {
                return Some(d);
            }
        }
        if f(facet::INFO) && e.info != g.info {
            return Some(format!("metadata {:?}, stored {:?}", g.info, e.info));
        }
        if f(facet::REFS) {
            if let Some(d) = first_diff("refs", &e.refs, &g.refs).or_else(|| first_diff("raw refs", &e.raw_refs, &g.raw_refs)) {
                return Some(d);
            }
        }
        if f(facet::LOCS) {
            if e.locs.len() != g.locs.len() {
                return Some(format!("{} locations, stored {}", g.locs.len(), e.locs.len()));
            }
            for (i, (a, b)) in e.locs.iter().zip(&g.locs).enumerate() {
                if let Some(d) = coord_diff(a, b) {
                    return Some(format!("location {i}: {d}"));
                }
            }
        }
        if f(facet::MEMBERS) {
            if let Some(d) = first_diff("members", &e.members, &g.members) {
                return Some(d);
            }
        }
        if let Some(n) = g.notes.first() {
            return Some(n.clone());
        }
        None
    })();
    body.map(|d| format!("{:?} id {}: {d}", e.kind, e.id))
}

fn hs(h: u64, s: &StrE) -> u64 {
    match s {
        StrE::Ok(s) => mix(h ^ hash_bytes(s.as_bytes())),
        StrE::Utf8 { index, valid_up_to, .. } => mix(h ^ 0x5555 ^ *index as u64 ^ ((*valid_up_to as u64) << 32)),
        StrE::Oob(i) => mix(h ^ 0xaaaa ^ *i as u64),
        StrE::Other(s) => mix(h ^ 0xbbbb ^ hash_bytes(s.as_bytes())),
    }
}

/// Content hash of an element (coordinates by nano value).
pub fn el_hash(e: &El) -> u64 {
    let mut h = mix(e.kind as u64 + 1);
    let mut p = |x: u64| h = mix(h ^ x).rotate_left(5);
    p(e.id as u64);
    p(e.tags.len() as u64);
    for (k, v) in &e.tags {
        p(hash_bytes(k.as_bytes()));
        p(hash_bytes(v.as_bytes()));
    }
    for t in &e.raw_tags {
        p((t.0 as u64) << 32 | t.1 as u64);
    }
    let i = &e.info;
    p(i.present as u64 | (i.visible as u64) << 1 | (i.deleted as u64) << 2);
    p(i.version.map_or(1 << 40, |x| x as u32 as u64));
    p(i.milli_ts.map_or(77, |x| mix(x as u64)));
    p(i.changeset.map_or(78, |x| mix(x as u64)));
    p(i.uid.map_or(1 << 41, |x| x as u32 as u64));
    p(i.user.as_ref().map_or(5, |s| hs(6, s)));
    if let Some(c) = &e.coord {
        p(c.nano.0 as u64);
        p(c.nano.1 as u64);
    }
    p(e.refs.len() as u64);
    for x in e.refs.iter().chain(&e.raw_refs) {
        p(*x as u64);
    }
    p(e.locs.len() as u64);
    for c in &e.locs {
        p(c.nano.0 as u64);
        p(c.nano.1 as u64);
    }
    p(e.members.len() as u64);
    for m in &e.members {
        p(m.ty as u64);
        p(m.id as u64);
        p(m.role_sid as u64);
        p(hs(9, &m.role));
    }
    h
}

/// Compares a sequence read from one block with the stored groups. Groups must come in order; in a
/// group of several kinds (not legal in the format) only the order within each kind is judged.
pub fn match_block(exp: &[[Vec<El>; 4]], got: &[El], facets: u32) -> Result<(), String> {
    let want: usize = exp.iter().flatten().map(|v| v.len()).sum();
    let mut pos = 0;
    for (gi, g) in exp.iter().enumerate() {
        let n: usize = g.iter().map(|v| v.len()).sum();
        let mut at = [0usize; 4];
        for _ in 0..n {
            let Some(x) = got.get(pos) else {
                return Err(format!("only {} of {want} elements delivered (group {gi} incomplete)", got.len()));
            };
            let k = x.kind as usize;
            let Some(e) = g[k].get(at[k]) else {
                return Err(format!("element {pos} (group {gi}) is {:?} id {}, but the group stores no (more) such elements", x.kind, x.id));
            };
            if let Some(d) = el_diff(e, x, facets) {
                return Err(format!("element {pos} (group {gi}): {d}"));
            }
            at[k] += 1;
            pos += 1;
        }
    }
    if pos < got.len() {
        return Err(format!("{} elements delivered, {want} stored; extra {:?} id {}", got.len(), got[pos].kind, got[pos].id));
    }
    Ok(())
}

impl FileM {
    pub fn count(&self) -> usize {
        self.blobs.iter().filter_map(|b| b.block()).map(|b| b.count()).sum()
    }
    /// Expected groups of all data blobs in file order.
    pub fn exp(&self) -> Vec<[Vec<El>; 4]> {
        self.blobs.iter().filter_map(|b| b.block()).flat_map(|b| b.exp()).collect()
    }
}
