//! Observing elements and blocks through the public interface.

use crate::model::*;
use osmpbf::*;

pub fn strr(r: Result<&str>) -> StrE {
    match r {
        Ok(s) => StrE::Ok(s.to_string()),
        Err(e) => match e.into_kind() {
            ErrorKind::StringtableUtf8 { err, index } => StrE::Utf8 { index, valid_up_to: err.valid_up_to(), error_len: err.error_len() },
            ErrorKind::StringtableIndexOutOfBounds { index } => StrE::Oob(index),
            k => StrE::Other(format!("{k:?}")),
        },
    }
}

/// Longest list any observer follows before it declares that the list does not end.
pub const LIST_CAP: usize = 12_000_000;

fn collect<T>(it: impl Iterator<Item = T>, what: &str, notes: &mut Vec<String>) -> Vec<T> {
    let mut v = vec![];
    for x in it {
        v.push(x);
        if v.len() > LIST_CAP {
            notes.push(format!("{what} does not end"));
            break;
        }
    }
    v
}

fn strs(v: Vec<(&str, &str)>) -> Vec<(String, String)> {
    v.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn info_o(i: &Info) -> InfoO {
    InfoO {
        present: true,
        version: i.version(),
        milli_ts: i.milli_timestamp(),
        changeset: i.changeset(),
        uid: i.uid(),
        user: i.user().map(strr),
        visible: i.visible(),
        deleted: i.deleted(),
    }
}

macro_rules! coord {
    ($n:expr) => {
        Coord { nano: ($n.nano_lat(), $n.nano_lon()), deg: ($n.lat(), $n.lon()), decimicro: ($n.decimicro_lat(), $n.decimicro_lon()) }
    };
}

fn blank(kind: Kind, id: i64) -> El {
    El {
        kind,
        id,
        tags: vec![],
        raw_tags: vec![],
        info: InfoO::default(),
        coord: None,
        refs: vec![],
        raw_refs: vec![],
        locs: vec![],
        members: vec![],
        notes: vec![],
    }
}

pub fn ob_node(n: &Node) -> El {
    let mut e = blank(Kind::Node, n.id());
    e.tags = strs(collect(n.tags(), "tags", &mut e.notes));
    e.raw_tags = collect(n.raw_tags(), "raw tags", &mut e.notes);
    e.info = info_o(&n.info());
    e.coord = Some(coord!(n));
    raw_check(n.raw_stringtable(), &mut e);
    e
}

pub fn ob_dense(n: &DenseNode) -> El {
    let mut e = blank(Kind::Dense, n.id());
    if n.id != n.id() {
        e.notes.push(format!("field id {} differs from id() {}", n.id, n.id()));
    }
    e.tags = strs(collect(n.tags(), "tags", &mut e.notes));
    e.raw_tags = collect(n.raw_tags(), "raw tags", &mut e.notes).into_iter().map(|(a, b)| (a as u32, b as u32)).collect();
    e.coord = Some(coord!(n));
    if let Some(i) = n.info() {
        e.info = InfoO {
            present: true,
            version: Some(i.version()),
            milli_ts: Some(i.milli_timestamp()),
            changeset: Some(i.changeset()),
            uid: Some(i.uid()),
            user: Some(strr(i.user())),
            visible: i.visible(),
            deleted: i.deleted(),
        };
    }
    e
}

pub fn ob_way(w: &Way) -> El {
    let mut e = blank(Kind::Way, w.id());
    e.tags = strs(collect(w.tags(), "tags", &mut e.notes));
    e.raw_tags = collect(w.raw_tags(), "raw tags", &mut e.notes);
    e.info = info_o(&w.info());
    e.refs = collect(w.refs(), "refs", &mut e.notes);
    e.raw_refs = w.raw_refs().to_vec();
    e.locs = collect(w.node_locations().map(|l| coord!(l)), "locations", &mut e.notes);
    raw_check(w.raw_stringtable(), &mut e);
    e
}

pub fn ob_rel(r: &Relation) -> El {
    let mut e = blank(Kind::Rel, r.id());
    e.tags = strs(collect(r.tags(), "tags", &mut e.notes));
    e.raw_tags = collect(r.raw_tags(), "raw tags", &mut e.notes);
    e.info = info_o(&r.info());
    let it = r.members().map(|m| MemberO {
        ty: match m.member_type {
            RelMemberType::Node => 0,
            RelMemberType::Way => 1,
            RelMemberType::Relation => 2,
        },
        id: m.member_id,
        role_sid: m.role_sid,
        role: strr(m.role()),
    });
    e.members = collect(it, "members", &mut e.notes);
    raw_check(r.raw_stringtable(), &mut e);
    e
}

/// The string table reachable from an element must resolve its raw tags to its tags.
fn raw_check(table: &[Vec<u8>], e: &mut El) {
    for (i, (k, v)) in e.tags.iter().enumerate() {
        let ok = e.raw_tags.get(i).map_or(false, |(a, b)| {
            table.get(*a as usize).map_or(false, |x| x == k.as_bytes()) && table.get(*b as usize).map_or(false, |x| x == v.as_bytes())
        });
        if !ok {
            e.notes.push(format!("tag {i} {k:?}={v:?} is not what its raw indices name in the raw string table"));
            return;
        }
    }
}

pub fn ob(e: &Element) -> El {
    match e {
        Element::Node(n) => ob_node(n),
        Element::DenseNode(n) => ob_dense(n),
        Element::Way(w) => ob_way(w),
        Element::Relation(r) => ob_rel(r),
    }
}

pub fn ob_header(h: &HeaderBlock) -> HeaderM {
    HeaderM {
        bbox: None,
        required: h.required_features().to_vec(),
        optional: h.optional_features().to_vec(),
        program: h.writing_program().map(|s| s.to_string()),
        source: h.source().map(|s| s.to_string()),
        rep_ts: h.osmosis_replication_timestamp(),
        rep_seq: h.osmosis_replication_sequence_number(),
        rep_url: h.osmosis_replication_base_url().map(|s| s.to_string()),
    }
}

pub fn header_diff(e: &HeaderM, h: &HeaderBlock) -> Option<String> {
    let g = ob_header(h);
    macro_rules! f {
        ($x:ident) => {
            if e.$x != g.$x {
                return Some(format!(concat!(stringify!($x), ": {:?}, stored {:?}"), g.$x, e.$x));
            }
        };
    }
    f!(required);
    f!(optional);
    f!(program);
    f!(source);
    f!(rep_ts);
    f!(rep_seq);
    f!(rep_url);
    match (e.bbox, h.bbox()) {
        (None, None) => None,
        (Some(b), Some(g)) => {
            for (n, e, g) in [("left", b[0], g.left), ("right", b[1], g.right), ("top", b[2], g.top), ("bottom", b[3], g.bottom)] {
                if !deg_ok(e as f64 * 1e-9, g) {
                    return Some(format!("bbox {n}: {g}, stored {e} nanodegrees"));
                }
            }
            None
        }
        (e, g) => Some(format!("bbox {g:?}, stored {e:?}")),
    }
}

pub fn via_elements(b: &PrimitiveBlock) -> Vec<El> {
    b.elements().take(LIST_CAP).map(|e| ob(&e)).collect()
}
pub fn via_callback(b: &PrimitiveBlock) -> Vec<El> {
    let mut v = vec![];
    b.for_each_element(|e| v.push(ob(&e)));
    v
}
/// Per group and kind: node, dense, way, relation.
pub fn via_groups(b: &PrimitiveBlock) -> Vec<[Vec<El>; 4]> {
    b.groups()
        .take(LIST_CAP)
        .map(|g| {
            [
                g.nodes().take(LIST_CAP).map(|x| ob_node(&x)).collect(),
                g.dense_nodes().take(LIST_CAP).map(|x| ob_dense(&x)).collect(),
                g.ways().take(LIST_CAP).map(|x| ob_way(&x)).collect(),
                g.relations().take(LIST_CAP).map(|x| ob_rel(&x)).collect(),
            ]
        })
        .collect()
}

pub fn match_groups(exp: &[[Vec<El>; 4]], got: &[[Vec<El>; 4]], facets: u32) -> std::result::Result<(), String> {
    if exp.len() != got.len() {
        return Err(format!("{} groups, stored {}", got.len(), exp.len()));
    }
    for (gi, (e, g)) in exp.iter().zip(got).enumerate() {
        for k in 0..4 {
            if e[k].len() != g[k].len() {
                return Err(format!("group {gi}: {} elements of kind {k}, stored {}", g[k].len(), e[k].len()));
            }
            for (i, (a, b)) in e[k].iter().zip(&g[k]).enumerate() {
                if let Some(d) = el_diff(a, b, facets) {
                    return Err(format!("group {gi} element {i}: {d}"));
                }
            }
        }
    }
    Ok(())
}

/// Classification of an error, without its text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ErrC {
    Io(std::io::ErrorKind),
    Protobuf(String),
    HeaderSize,
    HeaderTooBig(u64),
    MessageTooBig(u64),
    Empty,
    Str,
    Other(String),
}

pub fn errc(e: &Error) -> ErrC {
    match e.kind() {
        ErrorKind::Io(e) => ErrC::Io(e.kind()),
        ErrorKind::Protobuf { location, .. } => ErrC::Protobuf(location.to_string()),
        ErrorKind::StringtableUtf8 { .. } | ErrorKind::StringtableIndexOutOfBounds { .. } => ErrC::Str,
        ErrorKind::Blob(BlobError::InvalidHeaderSize) => ErrC::HeaderSize,
        ErrorKind::Blob(BlobError::HeaderTooBig { size }) => ErrC::HeaderTooBig(*size),
        ErrorKind::Blob(BlobError::MessageTooBig { size }) => ErrC::MessageTooBig(*size),
        ErrorKind::Blob(BlobError::Empty) => ErrC::Empty,
        k => ErrC::Other(format!("{k:?}")),
    }
}

pub fn ty_str(t: &BlobType) -> String {
    match t {
        BlobType::OsmHeader => "OSMHeader".into(),
        BlobType::OsmData => "OSMData".into(),
        BlobType::Unknown(s) => format!("?{s}"),
    }
}

/// What `ty_str` must give for a stored type string.
pub fn ty_exp(s: &str) -> String {
    match s {
        "OSMHeader" | "OSMData" => s.to_string(),
        _ => format!("?{s}"),
    }
}
