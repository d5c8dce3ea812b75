//! C33 to C36: what errors tell, memory and time that files of any length take, panics in callbacks.

use super::index::{judge, run_op, Op};
use super::read::{bad_frame, bad_payload, sized_block, Want};
use super::util::*;
use super::{Prop, BASE};
use crate::alloc;
use crate::ctx::*;
use crate::ensure;
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::pb::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::io::{self, BufReader, Cursor, ErrorKind as IoKind, Read, Seek, SeekFrom};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// C33

#[allow(deprecated)]
fn cause_of(e: &Error) -> Option<String> {
    std::error::Error::cause(e).map(|c| c.to_string())
}

#[allow(deprecated)]
fn describe(e: &Error) -> String {
    std::error::Error::description(e).into()
}

/// What holds of every error. Consumes it.
fn telling(ctx: &mut Ctx, e: Error, what: &str) -> R {
    let text = e.to_string();
    let dbg = format!("{:?}", e.kind());
    let cl = errc(&e);
    ensure!(!text.trim().is_empty(), "{what}: the error {e:?} has no message");
    let mut facts: Vec<String> = vec![];
    let mut cause = None;
    match e.kind() {
        ErrorKind::Io(x) => {
            facts.push(x.to_string());
            cause = Some(x.to_string());
        }
        ErrorKind::Protobuf { err, location } => {
            facts.push(err.to_string());
            facts.push(location.to_string());
            cause = Some(err.to_string());
        }
        ErrorKind::StringtableUtf8 { err, index } => {
            facts.push(index.to_string());
            facts.push(err.to_string());
            cause = Some(err.to_string());
        }
        ErrorKind::StringtableIndexOutOfBounds { index } => facts.push(index.to_string()),
        ErrorKind::Blob(BlobError::HeaderTooBig { size }) | ErrorKind::Blob(BlobError::MessageTooBig { size }) => facts.push(size.to_string()),
        _ => {}
    }
    for f in &facts {
        ensure!(text.contains(f.as_str()), "{what}: the message {text:?} of {e:?} does not tell {f:?}");
        ctx.add("facts found in messages", 1);
    }
    ensure!(cause_of(&e) == cause, "{what}: cause of {e:?} is {:?}, expected {cause:?}", cause_of(&e));
    // The short description is that of the kind.
    let short = describe(&e).to_lowercase().replace([' ', '-'], "");
    let named = match e.kind() {
        ErrorKind::Io(x) if IO_KINDS.contains(&x.kind()) && x.kind() != IoKind::OutOfMemory && x.kind() != IoKind::Unsupported => format!("{:?}", x.kind()).to_lowercase(),
        ErrorKind::Io(_) => "io".into(),
        ErrorKind::Protobuf { .. } => "protobuf".into(),
        ErrorKind::StringtableUtf8 { .. } => "utf8".into(),
        ErrorKind::StringtableIndexOutOfBounds { .. } => "outofbounds".into(),
        ErrorKind::Blob(BlobError::HeaderTooBig { .. }) => "headeristoobig".into(),
        ErrorKind::Blob(BlobError::MessageTooBig { .. }) => "messageistoobig".into(),
        ErrorKind::Blob(BlobError::Empty) => "missing".into(),
        _ => "".into(),
    };
    ensure!(short.contains(&named), "{what}: the description of {e:?} is {:?}", describe(&e));
    // As an I/O error it remains what it is.
    let io: io::Error = e.into();
    let io_text = io.to_string();
    ensure!(io_text.contains(&text), "{what}: as an I/O error the message is {io_text:?}, before {text:?}");
    let back = io.into_inner().and_then(|x| x.downcast::<Error>().ok());
    let Some(back) = back else { return Err(format!("{what}: {dbg}: cannot be recovered from the I/O error it was turned into").into()) };
    ensure!(format!("{:?}", back.kind()) == dbg && errc(&back) == cl && back.to_string() == text, "{what}: recovered from an I/O error as {back:?}, before {dbg}");
    let k = back.into_kind();
    ensure!(format!("{k:?}") == dbg, "{what}: into_kind() gives {k:?}, kind() {dbg}");
    ctx.add(&format!("errors examined ({})", dbg.split(['(', ' ', '{']).next().unwrap()), 1);
    ctx.eval();
    ctx.nontrivial(hash_bytes(dbg.as_bytes()));
    Ok(())
}

const OPENERS: &[&str] = &["BlobReader::from_path", "BlobReader::seekable_from_path", "ElementReader::from_path", "IndexedReader::from_path", "Mmap::from_path"];

fn open_err(how: usize, p: &std::path::Path) -> Option<Error> {
    match how {
        0 => BlobReader::from_path(p).err(),
        1 => BlobReader::seekable_from_path(p).err(),
        2 => ElementReader::from_path(p).err(),
        3 => IndexedReader::from_path(p).err(),
        _ => unsafe { Mmap::from_path(p) }.err(),
    }
}

/// Fails the n-th operation with this error.
struct Failing<S> {
    s: S,
    n: u64,
    kind: IoKind,
    msg: String,
    os: Option<i32>,
}
impl<S> Failing<S> {
    fn op(&mut self) -> io::Result<()> {
        if self.n == 0 {
            self.n = u64::MAX;
            return Err(match self.os {
                Some(c) => io::Error::from_raw_os_error(c),
                None => io::Error::new(self.kind, self.msg.clone()),
            });
        }
        self.n -= 1;
        Ok(())
    }
}
impl<S: Read> Read for Failing<S> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.op()?;
        self.s.read(b)
    }
}
impl<S: Seek> Seek for Failing<S> {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.op()?;
        self.s.seek(p)
    }
}

const IO_KINDS: &[IoKind] = &[
    IoKind::NotFound,
    IoKind::PermissionDenied,
    IoKind::ConnectionReset,
    IoKind::BrokenPipe,
    IoKind::WouldBlock,
    IoKind::InvalidData,
    IoKind::TimedOut,
    IoKind::UnexpectedEof,
    IoKind::Other,
    IoKind::OutOfMemory,
    IoKind::Unsupported,
];

/// One message with exactly one kind of flaw, and the location that names it.
fn located(r: &mut Rng) -> (Vec<u8>, &'static str, &'static str) {
    let st = Style::canonical();
    let header = r.chance(1, 3);
    let ty = if header { "OSMHeader" } else { "OSMData" };
    let good = if header { enc_header(&HeaderM { program: Some("x".into()), ..Default::default() }, &st, r) } else { sized_block(50 + r.us(200)) };
    // A field with a length beyond the end
    let mut bad = good.clone();
    bad.extend([0x0a, 0x7f, 1]);
    let frame = |h: &[u8], d: &[u8]| {
        let mut v = (h.len() as u32).to_be_bytes().to_vec();
        v.extend_from_slice(h);
        v.extend_from_slice(d);
        v
    };
    let msg = |c: &[u8], comp: Comp, r: &mut Rng| enc_blob_msg(c, comp, RawSize::Exact, &Style::canonical(), r);
    match r.below(4) {
        0 => {
            let mut h = enc_blob_header(ty, None, 10, &st, r);
            h.extend([0x0a, 0x7f, 1]);
            (frame(&h, &[0; 10]), "blob header", "header message")
        }
        1 => {
            let mut d = msg(&good, Comp::Raw, r);
            d.extend([0x0a, 0x7f, 1]);
            let h = enc_blob_header(ty, None, d.len() as i64, &st, r);
            (frame(&h, &d), "blob content", "blob message")
        }
        2 => {
            let d = msg(&bad, Comp::Raw, r);
            let h = enc_blob_header(ty, None, d.len() as i64, &st, r);
            (frame(&h, &d), "raw blob data", "raw content")
        }
        _ => {
            let d = msg(&bad, *r.pick(&[Comp::Lib(6), Comp::Own(Deflate::Fixed), Comp::Own(Deflate::Stored)]), r);
            let h = enc_blob_header(ty, None, d.len() as i64, &st, r);
            (frame(&h, &d), "blob zlib data", "compressed content")
        }
    }
}

/// Blobs and blob headers that are too big: the error tells how big.
fn too_much(ctx: &mut Ctx, r: &mut Rng) -> R {
    let any = r.us(3 << 20);
    let over = *r.pick(&[0usize, 1, 2, 100, 65536, any]);
    let size = (32 << 20) + over;
    let header = r.chance(1, 3);
    let m = enc_blob_msg(&vec![0; size], Comp::Raw, *r.pick(&[RawSize::Absent, RawSize::Exact]), &Style::canonical(), r);
    let mut v = vec![];
    put_blob(if header { "OSMHeader" } else { "OSMData" }, None, &m, &Style::canonical(), &mut v, r);
    let p = ctx.file("c33.pbf", &v)?;
    let map = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
    let mut res = vec![
        ("stream", BlobReader::new(Cursor::new(&v[..])).next().unwrap().and_then(|b| b.decode().map(|_| ()))),
        ("map", map.blob_iter().next().unwrap().and_then(|b| b.decode().map(|_| ()))),
        ("by offset", BlobReader::new_seekable(Cursor::new(&v[..])).and_then(|mut x| x.blob_from_offset(ByteOffset(0))).and_then(|b| b.decode().map(|_| ()))),
    ];
    if !header {
        res.push(("node iteration", IndexedReader::new(Cursor::new(&v[..])).and_then(|mut x| x.for_each_node(|_| ()))));
        res.push(("way search", IndexedReader::new(Cursor::new(&v[..])).and_then(|mut x| x.read_ways_and_deps(|_| true, |_| ()))));
        res.push(("for_each", ElementReader::new(Cursor::new(&v[..])).for_each(|_| ())));
        res.push(("par_map_reduce", ElementReader::new(Cursor::new(&v[..])).par_map_reduce(|_| (), || (), |_, _| ())));
    }
    for (how, x) in res {
        let what = format!("{how}, raw content of {size} bytes");
        match x {
            Err(x) => {
                ensure!(matches!(x.kind(), ErrorKind::Blob(BlobError::MessageTooBig { size: n }) if *n == size as u64), "{what}: {x:?}");
                telling(ctx, x, &what)?;
            }
            Ok(_) => return Err(format!("{what}: no error").into()),
        }
    }
    let any = r.below(1 << 31) as u32;
    let n = 65536 + *r.pick(&[0u32, 1, 1000, u32::MAX - 65536, any]);
    let mut v = n.to_be_bytes().to_vec();
    v.resize(70_000, 0);
    let p = ctx.file("c33.pbf", &v)?;
    let map = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
    for (how, x) in [
        ("stream", BlobReader::new(Cursor::new(&v[..])).next().unwrap().map(|_| ())),
        ("header skipping", BlobReader::new_seekable(Cursor::new(&v[..])).and_then(|mut x| x.next_header_skip_blob().unwrap().map(|_| ()))),
        ("map", map.blob_iter().next().unwrap().map(|_| ())),
    ] {
        let what = format!("{how}, blob header of {n} bytes");
        match x {
            Err(x) => {
                ensure!(matches!(x.kind(), ErrorKind::Blob(BlobError::HeaderTooBig { size }) if *size == n as u64), "{what}: {x:?}");
                telling(ctx, x, &what)?;
            }
            Ok(_) => return Err(format!("{what}: no error").into()),
        }
    }
    ctx.add("sizes over the limits reported", 1);
    Ok(())
}

fn c33(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    match case % 6 {
        0 => {
            // From the operating system, by path
            for (how, name) in OPENERS.iter().enumerate() {
                let missing = ctx.scratch.join(format!("missing-{}", r.below(1000)));
                let through = ctx.file("file", b"x")?.join("below-a-file");
                for (p, os) in [(missing, libc::ENOENT), (through, libc::ENOTDIR), (std::path::PathBuf::new(), libc::ENOENT)] {
                    let what = format!("{name}({p:?})");
                    let Some(e) = open_err(how, &p) else { return Err(format!("{what}: no error").into()) };
                    match e.kind() {
                        ErrorKind::Io(x) if x.raw_os_error() == Some(os) => {}
                        k => return Err(format!("{what}: gives {k:?}, expected the error {os} of the operating system").into()),
                    }
                    telling(ctx, e, &what)?;
                    ctx.add("paths that cannot be opened", 1);
                }
            }
        }
        1 => {
            // Conversion of I/O errors
            for k in IO_KINDS {
                let m = format!("message {}", r.u64());
                let e = Error::from(io::Error::new(*k, m.clone()));
                let what = format!("from an I/O error {k:?}");
                match e.kind() {
                    ErrorKind::Io(x) if x.kind() == *k && x.to_string() == m => {}
                    x => return Err(format!("{what}: {x:?}").into()),
                }
                ensure!(e.to_string().contains(&m), "{what}: message {:?}", e.to_string());
                telling(ctx, e, &what)?;
            }
            for c in [libc::ENOENT, libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, 1 + r.below(130) as i32] {
                let e = Error::from(io::Error::from_raw_os_error(c));
                match e.kind() {
                    ErrorKind::Io(x) if x.raw_os_error() == Some(c) => {}
                    x => return Err(format!("from error {c} of the operating system: {x:?}").into()),
                }
                telling(ctx, e, "from an error of the operating system")?;
            }
        }
        2 => {
            // Met while reading: a failing source
            let f = {
                let mut f = FileM::default();
                for _ in 0..1 + r.us(3) {
                    let b = gen::block(r, &Cfg::sized(Size::Tiny));
                    f.blobs.push(gen::data_blob(r, &Cfg::sized(Size::Tiny), b));
                }
                f
            };
            let e = encode(&f, r);
            for n in 0..16 {
                let os = r.chance(1, 4).then_some(libc::EIO);
                let kind = *r.pick(IO_KINDS);
                let msg = format!("reason {}", r.u64());
                let s = Failing { s: Cursor::new(e.bytes.to_vec()), n, kind, msg: msg.clone(), os };
                let want = os.map(|c| io::Error::from_raw_os_error(c).to_string()).unwrap_or(msg);
                let how = r.below(5);
                let (name, res): (_, std::result::Result<(), Error>) = match how {
                    0 => ("stream", BlobReader::new(s).try_for_each(|b| b.map(|_| ()))),
                    1 => ("for_each", ElementReader::new(s).for_each(|_| ())),
                    2 => ("header skipping", BlobReader::new_seekable(s).and_then(|mut x| {
                        while let Some(h) = x.next_header_skip_blob() {
                            h?;
                        }
                        Ok(())
                    })),
                    3 => ("seeks", BlobReader::new_seekable(s).and_then(|mut x| {
                        for l in &e.lay {
                            x.seek(ByteOffset(l.end()))?;
                            x.seek_raw(io::SeekFrom::Current(0))?;
                        }
                        Ok(())
                    })),
                    _ => ("node iteration", IndexedReader::new(s).and_then(|mut x| x.for_each_node(|_| ()))),
                };
                if let Err(x) = res {
                    let what = format!("{name}, source failing at operation {n} with {want:?}");
                    match x.kind() {
                        ErrorKind::Io(y) => {
                            ensure!(y.to_string().contains(&want), "{what}: {x:?}");
                            ensure!(os.map_or(y.kind() == kind, |c| y.raw_os_error() == Some(c)), "{what}: kind {kind:?} became {:?}", y.kind());
                            ctx.add("failures of the source passed on", 1);
                        }
                        ErrorKind::Protobuf { .. } => {
                            ensure!(x.to_string().contains(&want), "{what}: message is {:?}", x.to_string());
                            ctx.add("failures of the source passed on", 1);
                        }
                        // Does not tell more than where
                        ErrorKind::Blob(BlobError::InvalidHeaderSize) => {}
                        k => return Err(format!("{what}: {k:?}").into()),
                    }
                    telling(ctx, x, &what)?;
                }
            }
            // Behind the last blob
            let end = e.bytes.len() as u64;
            let mut rd = BlobReader::new_seekable(Cursor::new(&e.bytes[..])).map_err(|x| format!("{x:?}"))?;
            for p in [end, end + 1 + r.below(1000)] {
                match rd.blob_from_offset(ByteOffset(p)) {
                    Ok(_) => return Err(format!("blob at {p}, behind the end {end}").into()),
                    Err(x) => {
                        ensure!(matches!(x.kind(), ErrorKind::Io(y) if y.kind() == IoKind::UnexpectedEof), "blob at {p}, behind the end {end}: {x:?}");
                        telling(ctx, x, "blob behind the end")?;
                    }
                }
            }
        }
        3 => {
            // The part that is damaged
            for _ in 0..8 {
                let (v, loc, what) = located(r);
                let p = ctx.file("c33.pbf", &v)?;
                let m = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
                let mut errs = vec![];
                errs.push(("stream", BlobReader::new(Cursor::new(&v[..])).next().map(|b| b.and_then(|b| b.decode().map(|_| ())))));
                errs.push(("map", m.blob_iter().next().map(|b| b.and_then(|b| b.decode().map(|_| ())))));
                errs.push(("for_each", Some(ElementReader::new(Cursor::new(&v[..])).for_each(|_| ()))));
                errs.push(("seekable", Some(BlobReader::new_seekable(Cursor::new(&v[..])).and_then(|mut x| x.blob_from_offset(ByteOffset(0))).and_then(|b| b.decode().map(|_| ())))));
                for (how, x) in errs {
                    let what = format!("{how}, damaged {what}");
                    if how == "for_each" && matches!(x, Some(Ok(()))) {
                        // Header blocks are not decoded
                        continue;
                    }
                    let Some(Err(x)) = x else { return Err(format!("{what}: no error").into()) };
                    match x.kind() {
                        ErrorKind::Protobuf { location, .. } if *location == loc => {}
                        k => return Err(format!("{what}: gives {k:?}, expected a protobuf error at {loc:?}").into()),
                    }
                    telling(ctx, x, &what)?;
                    ctx.add("damaged parts named", 1);
                }
            }
        }
        4 => {
            // Any other damage
            if case < 200 || case % 1200 == 4 {
                too_much(ctx, r)?;
            }
            for _ in 0..8 {
                let mut v = vec![];
                let w: Want;
                let s: String;
                if r.chance(1, 2) {
                    (w, s) = bad_frame(r, &mut v);
                } else {
                    let header = r.chance(1, 4);
                    let (m, w2, s2) = bad_payload(r, header, false);
                    put_blob(if header { "OSMHeader" } else { "OSMData" }, None, &m, &Style::canonical(), &mut v, r);
                    (w, s) = (w2, s2);
                }
                let p = ctx.file("c33.pbf", &v)?;
                let m = unsafe { Mmap::from_path(&p) }.map_err(|x| format!("{x:?}"))?;
                for (how, x) in [
                    ("stream", BlobReader::new(Cursor::new(&v[..])).next().map(|b| b.and_then(|b| b.decode().map(|_| ())))),
                    ("map", m.blob_iter().next().map(|b| b.and_then(|b| b.decode().map(|_| ())))),
                ] {
                    if let Some(Err(x)) = x {
                        let what = format!("{how}, {s}");
                        ensure!(w.is(&x), "{what}: {x:?}, expected {w:?}");
                        telling(ctx, x, &what)?;
                    }
                }
            }
        }
        _ => {
            // Strings that cannot be had
            let bad: &[&[u8]] = &[b"\xff", b"abc\xc3", b"ok\xe2\x82", b"\xf0\x9f\x98", b"a\xc0\x80b"];
            let n = *r.pick(&[2usize, 5, 130, 300, 20_000]);
            let k = 1 + r.us(n - 1);
            let s = *r.pick(bad);
            let mut strings: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 { vec![] } else { format!("s{i}").into_bytes() }).collect();
            strings[k] = s.to_vec();
            let oob = *r.pick(&[n as u32, n as u32 + 1, i32::MAX as u32]);
            let b = BlockM {
                strings,
                groups: vec![GroupM {
                    rels: vec![RelM { id: 1, tags: vec![], info: Some(InfoM { user_sid: Some(k as u32), ..Default::default() }), members: vec![(0, 1, k as u32), (0, 1, oob)] }],
                    ..Default::default()
                }],
                ..Default::default()
            };
            let e = encode(&FileM { blobs: vec![BlobM::data(b)] }, r);
            let blk = BlobReader::new(Cursor::new(&e.bytes[..])).next().unwrap().and_then(|b| b.to_primitiveblock()).map_err(|x| format!("{x:?}"))?;
            let rel = blk.groups().next().and_then(|g| g.relations().next()).ok_or("no relation")?;
            let mut errs = vec![];
            errs.push((k, false, rel.info().user().ok_or("no user")?.map(|_| ())));
            for m in rel.members() {
                let utf = errs.len() == 1;
                errs.push((if utf { k } else { oob as usize }, !utf, m.role().map(|_| ())));
            }
            ensure!(errs.len() == 3, "{} members of 2", errs.len() - 1);
            for (i, out, x) in errs {
                let Err(x) = x else { return Err(format!("string {i} of {n}: no error").into()) };
                let ok = match x.kind() {
                    ErrorKind::StringtableIndexOutOfBounds { index } => out && *index == i,
                    ErrorKind::StringtableUtf8 { index, err } => !out && *index == i && *err == std::str::from_utf8(s).unwrap_err(),
                    _ => false,
                };
                ensure!(ok, "string {i} of {n} ({s:?}): {x:?}");
                telling(ctx, x, "string table")?;
            }
        }
    }
    ctx.sample(|| "errors of one family".into());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C34

/// `head`, then `n` times `unit`.
struct Repeat {
    head: Vec<u8>,
    unit: Vec<u8>,
    n: u64,
}
impl Content for Repeat {
    fn len(&self) -> u64 {
        self.head.len() as u64 + self.n * self.unit.len() as u64
    }
    fn read_at(&self, mut pos: u64, mut buf: &mut [u8]) {
        while !buf.is_empty() {
            let s = if pos < self.head.len() as u64 {
                &self.head[pos as usize..]
            } else {
                let p = (pos - self.head.len() as u64) % self.unit.len() as u64;
                &self.unit[p as usize..]
            };
            let n = s.len().min(buf.len());
            buf[..n].copy_from_slice(&s[..n]);
            buf = &mut std::mem::take(&mut buf)[n..];
            pos += n as u64;
        }
    }
}

const READERS: &[&str] = &[
    "BlobReader",
    "BlobReader, decoding",
    "header skipping",
    "for_each",
    "par_map_reduce",
    "index creation",
    "node iteration",
    "way search without result",
    "memory map, decoding",
    "random access",
];

/// Touches everything an element offers, without keeping any of it.
pub fn touch(e: &Element) -> u64 {
    let mut n = 1u64;
    let mut s = |x: Result<&str>| n = n.wrapping_add(x.map_or(3, |x| x.len() as u64));
    match e {
        Element::Node(x) => {
            x.info().user().map(&mut s);
            n += x.tags().map(|(a, b)| (a.len() + b.len()) as u64).sum::<u64>() + x.raw_tags().count() as u64;
            n = n.wrapping_add(x.nano_lat() as u64);
        }
        Element::DenseNode(x) => {
            if let Some(i) = x.info() {
                s(i.user());
            }
            n += x.tags().map(|(a, b)| (a.len() + b.len()) as u64).sum::<u64>() + x.raw_tags().count() as u64;
            n = n.wrapping_add(x.nano_lat() as u64);
        }
        Element::Way(x) => {
            x.info().user().map(&mut s);
            n += x.tags().map(|(a, b)| (a.len() + b.len()) as u64).sum::<u64>() + x.raw_tags().count() as u64;
            n += x.refs().count() as u64 + x.node_locations().count() as u64 + x.raw_refs().len() as u64;
        }
        Element::Relation(x) => {
            x.info().user().map(&mut s);
            for m in x.members() {
                s(m.role());
            }
            n += x.tags().map(|(a, b)| (a.len() + b.len()) as u64).sum::<u64>() + x.raw_tags().count() as u64;
        }
    }
    n
}

/// Traverses a block in every way. Gives the number of elements.
fn touch_block(b: &PrimitiveBlock) -> u64 {
    let mut n = 0;
    let mut sum = 0u64;
    for e in b.elements() {
        n += 1;
        sum = sum.wrapping_add(touch(&e));
    }
    b.for_each_element(|e| sum = sum.wrapping_add(touch(&e)));
    for g in b.groups() {
        for x in g.nodes() {
            sum = sum.wrapping_add(touch(&Element::Node(x)));
        }
        for x in g.dense_nodes() {
            sum = sum.wrapping_add(touch(&Element::DenseNode(x)));
        }
        for x in g.ways() {
            sum = sum.wrapping_add(touch(&Element::Way(x)));
        }
        for x in g.relations() {
            sum = sum.wrapping_add(touch(&Element::Relation(x)));
        }
    }
    std::hint::black_box(sum);
    n
}

fn walk(ctx: &Ctx, how: usize, c: Arc<Repeat>, threads: usize, lay: &[Lay]) -> R<u64> {
    let er = |e: Error| Fail::from(format!("{}: {e:?}", READERS[how]));
    let src = || Src::new(c.clone() as Arc<dyn Content>);
    let mut n = 0u64;
    match how {
        0 => {
            for b in BlobReader::new(NoSeek(src())) {
                b.map_err(er)?;
                n += 1;
            }
        }
        1 => {
            for b in BlobReader::new_seekable(src()).map_err(er)? {
                if let BlobDecode::OsmData(p) = b.map_err(er)?.decode().map_err(er)? {
                    n += touch_block(&p);
                }
            }
        }
        2 => {
            let mut rd = BlobReader::new_seekable(src()).map_err(er)?;
            while let Some(x) = rd.next_header_skip_blob() {
                x.map_err(er)?;
                n += 1;
            }
        }
        3 => ElementReader::new(BufReader::new(src())).for_each(|e| n += (touch(&e) > 0) as u64).map_err(er)?,
        4 => n = pool(threads).install(|| ElementReader::new(src()).par_map_reduce(|e| (touch(&e) > 0) as u64, || 0, |a, b| a + b)).map_err(er)?,
        5 => IndexedReader::new(src()).and_then(|mut x| x.create_index()).map_err(er)?,
        6 => IndexedReader::new(src()).and_then(|mut x| x.for_each_node(|_| n += 1)).map_err(er)?,
        7 => IndexedReader::new(src()).and_then(|mut x| x.read_ways_and_deps(|_| { n += 1; false }, |_| ())).map_err(er)?,
        8 => {
            let p = ctx.scratch.join("c34.pbf");
            let m = unsafe { Mmap::from_path(&p) }.map_err(er)?;
            for b in m.blob_iter() {
                let b = b.map_err(er)?;
                if let BlobDecode::OsmData(p) = b.decode().map_err(er)? {
                    n += p.elements().count() as u64;
                }
            }
        }
        _ => {
            let mut rd = BlobReader::new_seekable(src()).map_err(er)?;
            let unit = c.unit.len() as u64;
            for k in 0..c.n {
                for l in lay.iter().rev() {
                    rd.blob_from_offset(ByteOffset(c.head.len() as u64 + k * unit + l.off)).map_err(er)?;
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}

fn c34(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    if case % 3 == 2 {
        return c34_again(ctx, case / 3, r);
    }
    if case % 5 == 3 {
        return c34_block(ctx, r);
    }
    // A unit of some blobs, small or large
    let tiny = case % 5 == 2;
    let many = case % 5 == 4;
    let mut f = FileM::default();
    if many {
        // Many elements of every kind in each blob
        for i in 0..4i64 {
            let n = 2000 + r.below(3000) as i64;
            let node = |k: i64| NodeM { id: i * 10_000 + k * 2, lat: k, lon: -k, tags: vec![], info: None };
            let mut groups = vec![];
            if i != 2 {
                groups.push(GroupM { dense: Some(DenseM { nodes: (0..n).map(node).collect(), with_kv: false, info: DInfo::None }), ..Default::default() });
                groups.push(GroupM { nodes: (n..n + n / 4).map(node).collect(), ..Default::default() });
            }
            if i != 1 {
                groups.push(GroupM { ways: (0..n / 4).map(|k| WayM { id: i * 10_000 + k, tags: vec![], info: None, refs: vec![k, k + 1, k], locs: None }).collect(), ..Default::default() });
                groups.push(GroupM { rels: (0..n / 4).map(|k| RelM { id: i * 10_000 + k, tags: vec![], info: None, members: vec![(0, k, 0)] }).collect(), ..Default::default() });
            }
            let mut b = BlobM::data(BlockM { strings: vec![vec![]], groups, ..Default::default() });
            b.comp = Comp::Lib(6);
            f.blobs.push(b);
        }
    } else if tiny {
        for i in 0..300 {
            let b = BlockM {
                strings: vec![vec![]],
                groups: vec![GroupM { nodes: vec![NodeM { id: i, lat: 1, lon: 1, tags: vec![], info: None }], ..Default::default() }],
                ..Default::default()
            };
            f.blobs.push(BlobM::data(b));
        }
        // What a header carries besides its numbers
        if r.chance(1, 2) {
            let n = 1000 + r.us(1500);
            for b in &mut f.blobs {
                b.indexdata = Some(vec![b'i'; n]);
            }
        }
    } else {
        let mut cfg = Cfg::sized(Size::Small);
        cfg.connected = true;
        while f.blobs.len() < 12 {
            let mut b = gen::block(r, &cfg);
            let pad = 20_000 + r.us(60_000);
            b.strings.push((0..pad).map(|_| b' ' + r.below(90) as u8).collect());
            f.blobs.push(gen::data_blob(r, &cfg, b));
        }
        if r.chance(1, 2) {
            f.blobs.push(gen::unknown_blob(r, &cfg));
        }
        if r.chance(1, 2) {
            let n = 5000 + r.us(50_000);
            for b in &mut f.blobs {
                b.indexdata = Some(vec![b'i'; n]);
            }
            // A blob that is not read: of a long type
            let mut b = gen::unknown_blob(r, &cfg);
            b.ty = "x".repeat(n);
            f.blobs.push(b);
            ctx.add("long files with long blob headers", 1);
        }
    }
    let e = encode(&f, r);
    let head = encode(&FileM { blobs: vec![gen::header_blob(r, &Cfg::sized(Size::Tiny))] }, r).bytes.to_vec();
    let unit = e.bytes.to_vec();
    let total = if ctx.quick() { 24u64 << 20 } else { 96 << 20 };
    let long = if tiny {
        60
    } else if many {
        if ctx.quick() { 40 } else { 150 }
    } else { (total / unit.len() as u64).max(20) };
    let blobs = long * f.blobs.len() as u64;
    let mk = |n: u64| Arc::new(Repeat { head: head.clone(), unit: unit.clone(), n });
    ctx.sample(|| format!("{} blobs of {} bytes, once and {long} times", f.blobs.len(), unit.len()));
    let picks: Vec<usize> = (0..READERS.len()).collect();
    for how in picks {
        let threads = *r.pick(&[1usize, 2, 4, 8]);
        let (short, longc) = (mk(1), mk(long));
        let run = |ctx: &mut Ctx, c: &Arc<Repeat>| -> R<(u64, usize)> {
            if how == 8 {
                let mut v = vec![0; c.len() as usize];
                c.read_at(0, &mut v);
                ctx.file("c34.pbf", &v)?;
            }
            if how == 4 {
                pool(threads); // not part of what is measured
            }
            let m = alloc::mark();
            let n = walk(ctx, how, c.clone(), threads, &e.lay)?;
            Ok((n, alloc::peak_since(m)))
        };
        // The cost of one blob: sequential decoding of one unit
        let one = if how == 4 {
            let m = alloc::mark();
            walk(ctx, 3, short.clone(), 1, &e.lay)?;
            alloc::peak_since(m)
        } else {
            0
        };
        let (n1, p1) = run(ctx, &short)?;
        let (n2, p2) = run(ctx, &longc)?;
        let name = if how == 4 { format!("{} with {threads} threads", READERS[how]) } else { READERS[how].to_string() };
        if (5..8).contains(&how) || how == 2 {
            ensure!(n2 == n1 * long || how == 2 && n2 == (n1 - 1) * long + 1, "{name}: {n1} items in one unit, {n2} in {long}");
        }
        // Some room for buffers; an entry for each blob in the index. One thread alone needs the
        // same memory for the same blobs again.
        let allowed = match how {
            4 => one * (threads + 2) * 2 + (1 << 20),
            5..=7 => p1 * 2 + blobs as usize * 512 + (1 << 20),
            _ => p1 + p1 / 4 + (1 << 16),
        };
        ctx.max(&format!("peak for a long file ({})", READERS[how]), p2 as u64);
        ctx.max("length of a long file", longc.len());
        ctx.add("long files read", 1);
        ctx.add("blobs in long files", blobs);
        ctx.eval();
        ensure!(p2 <= allowed, "{name}: {p2} bytes of memory for a file of {} bytes and {blobs} blobs, {p1} for one of {} bytes; expected at most {allowed}", longc.len(), short.len());
        ctx.nontrivial(hash_bytes(&unit) ^ how as u64);
    }
    Ok(())
}

const AGAIN: &[&str] = &["way searches", "way searches with other filters", "reading nodes", "index requests", "any indexed operations", "iterations after seek", "header iterations after seek", "reads by offset", "walks over the map", "map reads after seek", "decoding of a blob", "traversals of a block"];

/// What was read, or searched for, before does not add up in a reader that is used again and again.
fn c34_again(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let mut f = FileM::default();
    let per = 1000 + r.below(3000) as i64;
    let n_blobs = 1 + r.below(4) as i64;
    for i in 0..n_blobs {
        let nodes: Vec<NodeM> = (0..per).map(|k| NodeM { id: (i * per + k) * 2, lat: k, lon: -k, tags: vec![(1, 1)], info: None }).collect();
        let (a, b) = nodes.split_at(per as usize / 2);
        let g = vec![
            GroupM { dense: Some(DenseM { nodes: a.to_vec(), with_kv: true, info: DInfo::None }), ..Default::default() },
            GroupM { nodes: b.to_vec(), ..Default::default() },
        ];
        f.blobs.push(BlobM::data(BlockM { strings: vec![vec![], b"a".to_vec()], groups: g, ..Default::default() }));
    }
    for i in 0..n_blobs {
        let ways = (0..per / 4).map(|k| WayM { id: i * per + k, tags: vec![(1, 1)], info: None, refs: (0..5).map(|j| (i * per + k * 4 + j) * 2).collect(), locs: None }).collect();
        let rels = (0..per / 8).map(|k| RelM { id: i * per + k, tags: vec![], info: None, members: vec![(1, k, 0)] }).collect();
        f.blobs.push(BlobM::data(BlockM { strings: vec![vec![], b"a".to_vec()], groups: vec![GroupM { ways, ..Default::default() }, GroupM { rels, ..Default::default() }], ..Default::default() }));
    }
    for b in &mut f.blobs {
        b.comp = if r.chance(1, 2) { Comp::Lib(6) } else { Comp::Raw };
        if r.chance(1, 4) {
            b.indexdata = Some(vec![b'i'; 20_000]);
        }
    }
    let e = encode(&f, r);
    let how = (case % AGAIN.len() as u64) as usize;
    let er = |x: Error| Fail::from(format!("{}: well-formed data: {x:?}", AGAIN[how]));
    let p = ctx.file("c34a.pbf", &e.bytes)?;
    let map = unsafe { Mmap::from_path(&p) }.map_err(er)?;
    let mut over = map.blob_iter();
    let mut ix = IndexedReader::new(Cursor::new(e.bytes.clone().to_vec())).map_err(er)?;
    let mut rd = BlobReader::new_seekable(Cursor::new(&e.bytes[..])).map_err(er)?;
    let blob = rd.blob_from_offset(ByteOffset(e.lay[0].off)).map_err(er)?;
    let block = blob.to_primitiveblock().map_err(er)?;
    let n_blobs = e.lay.len() as u64;
    let mut n = 0u64;
    let mut rr = Rng::new(r.u64());
    let mut once = || -> R {
        let r = &mut rr;
        let kind = if how == 4 { r.below(4) as usize } else { how };
        match kind {
            0 => ix.read_ways_and_deps(|_| true, |_| n += 1).map_err(er)?,
            1 => {
                let x = r.u64();
                ix.read_ways_and_deps(|w| mix(w.id() as u64 ^ x) % 3 > 0, |_| n += 1).map_err(er)?
            }
            2 => ix.for_each_node(|_| n += 1).map_err(er)?,
            3 => {
                ix.create_index().map_err(er)?;
                n += 1
            }
            5 => {
                rd.seek(ByteOffset(e.lay[r.below(n_blobs) as usize].off)).map_err(er)?;
                for b in &mut rd {
                    let b = b.map_err(er)?;
                    if let BlobDecode::OsmData(p) = b.decode().map_err(er)? {
                        n += touch_block(&p);
                    }
                }
            }
            6 => {
                rd.seek(ByteOffset(e.lay[r.below(n_blobs) as usize].off)).map_err(er)?;
                while let Some(x) = rd.next_header_skip_blob() {
                    x.map_err(er)?;
                    n += 1;
                }
            }
            7 => {
                rd.blob_from_offset(ByteOffset(e.lay[r.below(n_blobs) as usize].off)).map_err(er)?;
                n += 1;
            }
            8 => {
                for b in map.blob_iter() {
                    if let BlobDecode::OsmData(p) = b.map_err(er)?.decode().map_err(er)? {
                        n += p.elements().count() as u64;
                    }
                }
            }
            9 => {
                over.seek(ByteOffset(e.lay[r.below(n_blobs) as usize].off));
                for b in &mut over {
                    b.map_err(er)?.decode().map_err(er)?;
                    n += 1;
                }
            }
            10 => n += blob.to_primitiveblock().map_err(er)?.elements().count() as u64,
            _ => n += touch_block(&block),
        }
        Ok(())
    };
    let m = alloc::mark();
    for _ in 0..5 {
        once()?;
    }
    let one = alloc::peak_since(m);
    let rounds = 60;
    let allowed = (one / 2 + (64 << 10)) as i64;
    let mut grown = i64::MAX;
    // What adds up does so every time.
    for _ in 0..3 {
        let m = alloc::current() as i64;
        for _ in 0..rounds {
            once()?;
        }
        grown = grown.min(alloc::current() as i64 - m);
        if grown <= allowed {
            break;
        }
    }
    ctx.add("items read again and again", n);
    ctx.add(&format!("readers used again and again ({})", AGAIN[how]), 1);
    ctx.add("readers used again and again", 1);
    ctx.max("growth of a reader that is used again", grown.max(0) as u64);
    ctx.eval();
    ctx.nontrivial(hash_bytes(&e.bytes) ^ how as u64);
    let _ = std::fs::remove_file(&p);
    ensure!(grown <= allowed, "{rounds} {} of one file of {} bytes make the reader grow by {grown} bytes; 5 of them take {one} in all", AGAIN[how], e.bytes.len());
    Ok(())
}

/// Traversing a block needs no more memory than decoding it.
fn c34_block(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = *r.pick(&[20_000usize, 60_000]);
    let tags: TagsM = vec![(1, 2), (2, 1)];
    let mut b = BlockM { strings: vec![vec![], b"a".to_vec(), b"b".to_vec()], ..Default::default() };
    let k = r.us(5);
    match k {
        0 => {
            let info = Some(InfoM { version: Some(1), timestamp: Some(5), changeset: Some(1), uid: Some(1), user_sid: Some(1), visible: Some(true) });
            let nodes = (0..n as i64).map(|i| NodeM { id: i, lat: i, lon: -i, tags: tags.clone(), info: info.clone() }).collect();
            b.groups.push(GroupM { dense: Some(DenseM { nodes, with_kv: true, info: DInfo::Visible }), ..Default::default() });
        }
        1 => b.groups.push(GroupM { ways: vec![WayM { id: 1, tags, info: None, refs: (0..n as i64).collect(), locs: Some((0..n as i64).map(|i| (i, i)).collect()) }], ..Default::default() }),
        2 => b.groups.push(GroupM { rels: vec![RelM { id: 1, tags, info: None, members: (0..n as i64).map(|i| (1, i, 1)).collect() }], ..Default::default() }),
        3 => b.groups = (0..n as i64 / 2).map(|i| GroupM { nodes: vec![NodeM { id: i, lat: 1, lon: 1, tags: tags.clone(), info: None }], ..Default::default() }).collect(),
        _ => {
            let t: TagsM = (0..n).map(|_| (1, 2)).collect();
            b.groups.push(GroupM { nodes: vec![NodeM { id: 1, lat: 1, lon: 1, tags: t.clone(), info: None }], ..Default::default() });
            b.groups.push(GroupM { dense: Some(DenseM { nodes: vec![NodeM { id: 1, lat: 1, lon: 1, tags: t, info: None }], with_kv: true, info: DInfo::None }), ..Default::default() });
        }
    }
    let e = encode(&FileM { blobs: vec![BlobM::data(b)] }, r);
    let m = alloc::mark();
    let blk = BlobReader::new(Cursor::new(&e.bytes[..])).next().unwrap().and_then(|b| b.to_primitiveblock()).map_err(|x| format!("{x:?}"))?;
    let decoding = alloc::peak_since(m);
    let m = alloc::mark();
    let els = touch_block(&blk);
    let p = alloc::peak_since(m);
    ctx.max("peak while traversing a block", p as u64);
    ctx.add("blocks traversed", 1);
    ctx.add("elements traversed", els);
    ctx.eval();
    ctx.nontrivial(mix(n as u64 ^ k as u64) ^ els);
    ensure!(p <= decoding + (64 << 10), "traversing a decoded block of {} bytes takes {p} bytes of memory, decoding it took {decoding}", e.bytes.len());
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C35

fn thread_cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

const FACTOR: usize = 16;
/// Linear: 16 (and some for caches). Quadratic: 256.
const WORST: f64 = 90.0;

const DIMS: &[(&str, usize)] = &[
    ("small blobs", 1500),
    ("dense nodes", 6000),
    ("plain nodes", 3000),
    ("ways", 3000),
    ("relations", 3000),
    ("references of one way", 12_000),
    ("locations of one way", 12_000),
    ("members of one relation", 12_000),
    ("tags of one way", 12_000),
    ("tags of one dense node", 12_000),
    ("strings", 6000),
    ("groups", 5000),
    ("empty groups", 8000),
    ("compressed bytes", 600_000),
    ("references to look up", 3000),
    ("references to look up in small blobs", 1500),
    ("blobs without ways", 1200),
];

fn dim_file(k: usize, n: usize, r: &mut Rng) -> FileM {
    let node = |i: usize| NodeM { id: i as i64, lat: i as i64, lon: -(i as i64), tags: vec![(1, 2)], info: None };
    let mut b = BlockM { strings: vec![vec![], b"a".to_vec(), b"b".to_vec()], ..Default::default() };
    let one = |g: GroupM| vec![g];
    match DIMS[k].0 {
        "small blobs" | "blobs without ways" => {
            let blobs = (0..n).map(|i| BlobM::data(BlockM { groups: one(GroupM { nodes: vec![node(i)], ..Default::default() }), strings: b.strings.clone(), ..Default::default() })).collect();
            return FileM { blobs };
        }
        "dense nodes" => b.groups = one(GroupM { dense: Some(DenseM { nodes: (0..n).map(node).collect(), with_kv: true, info: DInfo::None }), ..Default::default() }),
        "plain nodes" => b.groups = one(GroupM { nodes: (0..n).map(node).collect(), ..Default::default() }),
        "ways" => b.groups = one(GroupM { ways: (0..n).map(|i| WayM { id: i as i64, tags: vec![(1, 2)], info: None, refs: vec![1, 2], locs: None }).collect(), ..Default::default() }),
        "relations" => b.groups = one(GroupM { rels: (0..n).map(|i| RelM { id: i as i64, tags: vec![(1, 2)], info: None, members: vec![(1, 1, 1)] }).collect(), ..Default::default() }),
        "references of one way" => b.groups = one(GroupM { ways: vec![WayM { id: 1, tags: vec![], info: None, refs: (0..n as i64).map(|i| i * 7 % 1000).collect(), locs: None }], ..Default::default() }),
        "locations of one way" => {
            b.groups = one(GroupM { ways: vec![WayM { id: 1, tags: vec![], info: None, refs: (0..n as i64).collect(), locs: Some((0..n as i64).map(|i| (i, -i)).collect()) }], ..Default::default() })
        }
        "members of one relation" => b.groups = one(GroupM { rels: vec![RelM { id: 1, tags: vec![], info: None, members: (0..n as i64).map(|i| (1, i, 1)).collect() }], ..Default::default() }),
        "tags of one way" => b.groups = one(GroupM { ways: vec![WayM { id: 1, tags: (0..n).map(|_| (1, 2)).collect(), info: None, refs: vec![], locs: None }], ..Default::default() }),
        "tags of one dense node" => {
            let mut x = node(1);
            x.tags = (0..n).map(|_| (1, 2)).collect();
            b.groups = one(GroupM { dense: Some(DenseM { nodes: vec![node(0), x, node(2)], with_kv: true, info: DInfo::None }), ..Default::default() })
        }
        "strings" => {
            b.strings = (0..n).map(|i| if i == 0 { vec![] } else { format!("s{i}").into_bytes() }).collect();
            let w = (1..n / 2).map(|i| WayM { id: i as i64, tags: vec![(i as u32, (n - i) as u32)], info: None, refs: vec![], locs: None }).collect();
            b.groups = one(GroupM { ways: w, ..Default::default() })
        }
        "groups" => b.groups = (0..n).map(|i| GroupM { nodes: vec![node(i)], ..Default::default() }).collect(),
        "empty groups" => b.groups = (0..n).map(|i| if i == n - 1 { GroupM { nodes: vec![node(i)], ..Default::default() } } else { GroupM::default() }).collect(),
        "compressed bytes" => {
            b.strings.push((0..n).map(|_| b'a' + r.below(20) as u8).collect());
            let mut x = BlobM::data(b);
            x.comp = Comp::Lib(6);
            return FileM { blobs: vec![x] };
        }
        _ => {
            // ways over consecutive nodes, blobs in ascending order
            let mut f = FileM::default();
            let per = if DIMS[k].0 == "references to look up" { 100 } else { 3 };
            for c in 0..n / per {
                let nodes = (c * per..c * per + per).map(node).collect();
                f.blobs.push(BlobM::data(BlockM { strings: b.strings.clone(), groups: one(GroupM { nodes, ..Default::default() }), ..Default::default() }));
            }
            let ways = (0..n / 10).map(|i| WayM { id: i as i64, tags: vec![(1, 2)], info: None, refs: (i * 10..i * 10 + 10).map(|x| x as i64).collect(), locs: None }).collect();
            f.blobs.push(BlobM::data(BlockM { strings: b.strings, groups: one(GroupM { ways, ..Default::default() }), ..Default::default() }));
            return f;
        }
    }
    FileM { blobs: vec![BlobM::data(b)] }
}

const WALKS: &[&str] = &["blobs", "for_each", "traversals", "lengths", "header skipping", "node iteration", "way search", "map", "seeks in a map", "seeks in a stream", "parallel", "fragmented"];

/// Walks with `len()` after every step.
fn lengths(b: &PrimitiveBlock) -> u64 {
    let mut s = 0usize;
    macro_rules! steps {
        ($it:expr) => {{
            let mut it = $it;
            s += it.len();
            while it.next().is_some() {
                s = s.wrapping_add(it.len());
            }
        }};
    }
    steps!(b.groups());
    for g in b.groups() {
        steps!(g.nodes());
        steps!(g.dense_nodes());
        steps!(g.ways());
        steps!(g.relations());
        for x in g.nodes() {
            steps!(x.tags());
        }
        for x in g.dense_nodes() {
            let mut t = x.tags();
            while t.next().is_some() {
                s += t.size_hint().0;
            }
        }
        for x in g.ways() {
            steps!(x.tags());
            steps!(x.refs());
            steps!(x.node_locations());
        }
        for x in g.relations() {
            steps!(x.members());
        }
    }
    s as u64
}

fn timed(ctx: &Ctx, how: usize, e: &Enc) -> R<f64> {
    let er = |x: Error| Fail::from(format!("{}: {x:?}", WALKS[how]));
    let mut sum = 0u64;
    let blocks: Vec<PrimitiveBlock> = if matches!(WALKS[how], "traversals" | "lengths") {
        BlobReader::new(Cursor::new(&e.bytes[..])).map(|b| b.and_then(|b| b.to_primitiveblock())).collect::<Result<_>>().map_err(er)?
    } else {
        vec![]
    };
    if WALKS[how].ends_with("map") {
        ctx.file("c35.pbf", &e.bytes)?;
    }
    if WALKS[how] == "parallel" {
        // In one thread, whose time is taken
        return pool(1)
            .install(|| {
                let t = thread_cpu();
                let n = ElementReader::new(Cursor::new(&e.bytes[..])).par_map_reduce(|x| touch(&x), || 0, |a, b| a.wrapping_add(b));
                n.map(|n| {
                    std::hint::black_box(n);
                    thread_cpu() - t
                })
            })
            .map_err(er);
    }
    let t = thread_cpu();
    match WALKS[how] {
        "blobs" => {
            for b in BlobReader::new(Cursor::new(&e.bytes[..])) {
                sum += b.map_err(er)?.to_primitiveblock().map_err(er)?.raw_stringtable().len() as u64;
            }
        }
        "for_each" => ElementReader::new(Cursor::new(&e.bytes[..])).for_each(|x| sum = sum.wrapping_add(touch(&x))).map_err(er)?,
        "traversals" => {
            for b in &blocks {
                sum += touch_block(b);
            }
        }
        "lengths" => {
            for b in &blocks {
                sum = sum.wrapping_add(lengths(b));
            }
        }
        "header skipping" => {
            let mut rd = BlobReader::new_seekable(Cursor::new(&e.bytes[..])).map_err(er)?;
            while let Some(x) = rd.next_header_skip_blob() {
                x.map_err(er)?;
                sum += 1;
            }
        }
        "node iteration" => {
            let mut ix = IndexedReader::new(Cursor::new(&e.bytes[..])).map_err(er)?;
            for _ in 0..2 {
                ix.for_each_node(|_| sum += 1).map_err(er)?;
            }
        }
        "way search" => {
            let mut ix = IndexedReader::new(Cursor::new(&e.bytes[..])).map_err(er)?;
            for _ in 0..2 {
                ix.read_ways_and_deps(|_| true, |_| sum += 1).map_err(er)?;
            }
        }
        "map" => {
            let m = unsafe { Mmap::from_path(ctx.scratch.join("c35.pbf")) }.map_err(er)?;
            for b in m.blob_iter() {
                let b = b.map_err(er)?;
                if let BlobDecode::OsmData(p) = b.decode().map_err(er)? {
                    sum += p.elements().count() as u64;
                }
            }
        }
        "seeks in a map" => {
            let m = unsafe { Mmap::from_path(ctx.scratch.join("c35.pbf")) }.map_err(er)?;
            let mut it = m.blob_iter();
            for l in e.lay.iter().rev() {
                it.seek(ByteOffset(l.off));
                if let Some(b) = it.next() {
                    sum += b.map_err(er)?.offset().0;
                }
            }
        }
        "seeks in a stream" => {
            let mut rd = BlobReader::new_seekable(Cursor::new(&e.bytes[..])).map_err(er)?;
            for (k, l) in e.lay.iter().enumerate().rev() {
                match k % 3 {
                    0 => sum += rd.blob_from_offset(ByteOffset(l.off)).map_err(er)?.offset().map_or(0, |x| x.0),
                    1 => {
                        rd.seek(ByteOffset(l.off)).map_err(er)?;
                        rd.next().transpose().map_err(er)?;
                    }
                    _ => {
                        rd.seek_raw(SeekFrom::End(l.off as i64 - e.bytes.len() as i64)).map_err(er)?;
                        rd.next_header_skip_blob().transpose().map_err(er)?;
                    }
                }
            }
        }
        _ => {
            let s = NoSeek(Src::bytes(&e.bytes).chunk(Chunk::Max(1000), 1));
            ElementReader::new(s).for_each(|_| sum += 1).map_err(er)?
        }
    }
    std::hint::black_box(sum);
    Ok(thread_cpu() - t)
}

fn c35(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let k = case as usize % DIMS.len();
    let (name, n) = DIMS[k];
    let small = encode(&dim_file(k, n, r), r);
    let large = encode(&dim_file(k, n * FACTOR, r), r);
    for how in 0..WALKS.len() {
        let mut best = f64::INFINITY;
        let mut last = (0.0, 0.0);
        for attempt in 0..5 {
            let mut t1 = f64::INFINITY;
            for _ in 0..3 {
                t1 = t1.min(timed(ctx, how, &small)?);
            }
            let t2 = timed(ctx, how, &large)?;
            last = (t1, t2);
            best = best.min(t2 / t1.max(0.0003));
            ctx.add("pairs of runs timed", 1);
            if best <= WORST {
                break;
            }
            ctx.add("pairs of runs repeated", 1);
            let _ = attempt;
        }
        ctx.max(&format!("percent of linear time ({name})"), (best / FACTOR as f64 * 100.0) as u64);
        ctx.max("CPU milliseconds of a run", (last.1 * 1000.0) as u64);
        ensure!(
            best <= WORST,
            "{name}, {}: {:.1} ms of CPU for {n}, {:.1} ms for {}: {best:.0} times as much for {FACTOR} times the data, five times over",
            WALKS[how],
            last.0 * 1e3,
            last.1 * 1e3,
            n * FACTOR
        );
        ctx.eval();
        ctx.nontrivial(mix((k * 100 + how) as u64));
    }
    ctx.sample(|| format!("{name}: {n} and {}, {} and {} bytes", n * FACTOR, small.bytes.len(), large.bytes.len()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C36

/// What the callbacks raise: does not go through the panic hook.
#[derive(Debug, PartialEq, Clone, Copy)]
struct Raised(u64);
fn raise(n: u64) -> ! {
    resume_unwind(Box::new(Raised(n)))
}

/// The payload that arrived at the caller.
fn arrived<T: std::fmt::Debug>(x: std::thread::Result<T>, what: &str) -> R<Raised> {
    match x {
        Ok(v) => Err(format!("{what}: the panic of the callback does not arrive, the call returns {v:?}").into()),
        Err(p) => match p.downcast::<Raised>() {
            Ok(x) => Ok(*x),
            Err(p) => {
                let s = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(format!("{what}: another panic arrives: {s:?}").into())
            }
        },
    }
}

fn c36(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    match case % 4 {
        0 => c36_seq(ctx, r),
        1 => c36_par(ctx, r),
        _ => c36_index(ctx, r),
    }
}

fn c36_seq(ctx: &mut Ctx, r: &mut Rng) -> R {
    let mut cfg = Cfg::any(r);
    cfg.mixed_groups = false;
    let f = gen::file(r, &cfg);
    let e = encode(&f, r);
    let mut all = vec![];
    ElementReader::new(Cursor::new(&e.bytes[..])).for_each(|x| all.push(el_hash(&ob(&x)))).map_err(|x| format!("{x:?}"))?;
    let total = all.len() as u64;
    if total == 0 {
        return Ok(());
    }
    for _ in 0..6 {
        let at = r.below(total);
        let mut got = vec![];
        let x = catch_unwind(AssertUnwindSafe(|| {
            let mut f = |x: Element| {
                if got.len() as u64 == at {
                    raise(at);
                }
                got.push(el_hash(&ob(&x)));
            };
            if at % 2 == 0 {
                ElementReader::new(Cursor::new(&e.bytes[..])).for_each(&mut f).map_err(|e| e.to_string())
            } else {
                ElementReader::new(NoSeek(Src::bytes(&e.bytes))).for_each(&mut f).map_err(|e| e.to_string())
            }
        }));
        let what = format!("for_each, panic at element {at} of {total}");
        ensure!(arrived(x, &what)? == Raised(at), "{what}: another one arrives");
        ensure!(got[..] == all[..at as usize], "{what}: {} elements before it, or other ones", got.len());
        ctx.add("panics passed on (for_each)", 1);
        ctx.eval();
        ctx.nontrivial(mix(at) ^ hash_bytes(&e.bytes));
    }
    // The block remains as it is.
    for b in BlobReader::new(Cursor::new(&e.bytes[..])) {
        let b = b.map_err(|x| format!("{x:?}"))?;
        if b.get_type() != BlobType::OsmData {
            continue;
        }
        let p = b.to_primitiveblock().map_err(|x| format!("{x:?}"))?;
        let before: Vec<u64> = via_elements(&p).iter().map(el_hash).collect();
        if before.is_empty() {
            continue;
        }
        let at = r.us(before.len());
        let mut n = 0;
        let x = catch_unwind(AssertUnwindSafe(|| {
            p.for_each_element(|_| {
                if n == at {
                    raise(at as u64);
                }
                n += 1;
            })
        }));
        let what = format!("for_each_element, panic at element {at}");
        ensure!(arrived(x, &what)? == Raised(at as u64), "{what}: another one arrives");
        let after: Vec<u64> = via_elements(&p).iter().map(el_hash).collect();
        ensure!(before == after, "{what}: afterwards the block yields {} elements, before {}", after.len(), before.len());
        ctx.add("panics passed on (for_each_element)", 1);
        ctx.eval();
    }
    Ok(())
}

fn c36_par(ctx: &mut Ctx, r: &mut Rng) -> R {
    let n = *r.pick(&[1usize, 2, 5, 40, 300]);
    let mut f = FileM::default();
    for _ in 0..n {
        let b = gen::block(r, &Cfg::sized(Size::Tiny));
        f.blobs.push(gen::data_blob(r, &Cfg::sized(Size::Tiny), b));
    }
    let e = encode(&f, r);
    let total = f.blobs.iter().filter_map(|b| b.block()).map(|b| b.count() as u64).sum::<u64>();
    for _ in 0..6 {
        let threads = *r.pick(&[1usize, 2, 3, 4, 8, 16]);
        let place = r.below(3);
        let every = r.chance(1, 4);
        let at = if place == 0 { r.below(total.max(1)) } else { r.below(4) };
        let delay = r.chance(1, 4);
        let (maps, reds, ids) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
        let raised = AtomicU64::new(0);
        let fire = |c: &AtomicU64| {
            let k = c.fetch_add(1, SeqCst);
            if k == at || (every && k > at) {
                raised.fetch_add(1, SeqCst);
                raise(k)
            }
        };
        let run = || {
            pool(threads).install(|| {
                ElementReader::new(Src::bytes(&e.bytes)).par_map_reduce(
                    |x| {
                        if delay {
                            std::thread::yield_now();
                        }
                        if place == 0 {
                            fire(&maps);
                        }
                        (touch(&x) > 0) as u64
                    },
                    || {
                        if place == 1 {
                            fire(&ids);
                        }
                        0
                    },
                    |a, b| {
                        if place == 2 {
                            fire(&reds);
                        }
                        a + b
                    },
                )
            })
        };
        let x = catch_unwind(AssertUnwindSafe(run));
        let what = format!("par_map_reduce with {threads} threads over {n} blobs, panic in {} number {at}{}", ["map", "identity", "reduce"][place as usize], if every { " and all later ones" } else { "" });
        if raised.load(SeqCst) == 0 {
            // Never called that often
            match x {
                Ok(Ok(v)) if v == total => {}
                Ok(v) => return Err(format!("{what}: nothing raised, result {v:?}, stored {total}").into()),
                Err(_) => return Err(format!("{what}: nothing raised, but a panic arrives").into()),
            }
            ctx.add("places not reached", 1);
        } else {
            let x = arrived(x.map(|v| v.map_err(|e| e.to_string())), &what)?;
            ensure!(x.0 >= at, "{what}: number {} arrives", x.0);
            ctx.add("panics passed on (parallel)", 1);
            ctx.add("panics raised in parallel", raised.load(SeqCst));
            ctx.nontrivial(mix(at ^ place << 40 ^ (threads as u64) << 50) ^ hash_bytes(&e.bytes));
        }
        // The next run with the same threads is complete.
        let v = pool(threads)
            .install(|| ElementReader::new(Src::bytes(&e.bytes)).par_map_reduce(|_| 1u64, || 0, |a, b| a + b))
            .map_err(|x| format!("{what}: the next run fails with {x:?}"))?;
        ensure!(v == total, "{what}: the next run counts {v} of {total} elements");
        ctx.eval();
    }
    Ok(())
}

fn c36_index(ctx: &mut Ctx, r: &mut Rng) -> R {
    let size = *r.pick(&[Size::Tiny, Size::Small, Size::Small]);
    let f = super::index::ix_file(r, size, 0);
    let e = encode(&f, r);
    let exp = f.exp();
    let mut ix = IndexedReader::new(Src::bytes(&e.bytes)).map_err(|x| format!("{x:?}"))?;
    let mut log: Vec<String> = vec![];
    for _ in 0..2 + r.us(5) {
        let op = super::index::op_any(r);
        if op == Op::Index || r.chance(1, 3) {
            let d = run_op(&mut ix, op);
            d.res.as_ref().map_err(|x| format!("{op:?} after {log:?}: {x}"))?;
            judge(&exp, op, &d).map_err(|m| format!("{op:?} after {log:?}: {m}"))?;
            log.push(format!("{op:?}"));
            ctx.add("complete operations", 1);
            ctx.eval();
            continue;
        }
        // How often the callbacks are called
        let modulo = 1 + r.below(3);
        let in_filter = r.chance(1, 2);
        let go = |ix: &mut IndexedReader<Src>, at: u64| -> (u64, std::thread::Result<std::result::Result<(), String>>) {
            let k = std::cell::Cell::new(0u64);
            let calls = || {
                let n = k.get();
                k.set(n + 1);
                if n == at {
                    raise(n)
                }
            };
            let x = catch_unwind(AssertUnwindSafe(|| {
                match op {
                    Op::Nodes => ix.for_each_node(|_| calls()),
                    _ => ix.read_ways_and_deps(
                        |w| {
                            if in_filter {
                                calls();
                            }
                            w.id() as u64 % modulo == 0
                        },
                        |_| {
                            if !in_filter {
                                calls()
                            }
                        },
                    ),
                }
                .map_err(|e| format!("{e:?}"))
            }));
            (k.get(), x)
        };
        let mut fresh = IndexedReader::new(Src::bytes(&e.bytes)).map_err(|x| format!("{x:?}"))?;
        let (n, _) = go(&mut fresh, u64::MAX);
        if n == 0 {
            continue;
        }
        let at = r.below(n);
        let (k, x) = go(&mut ix, at);
        let what = format!("{} with a panic at call {at} of {n} after {log:?}", if op == Op::Nodes { "node iteration" } else if in_filter { "way search (filter)" } else { "way search (elements)" });
        ensure!(arrived(x, &what)? == Raised(at) && k == at + 1, "{what}: another one arrives, or after {k} calls");
        ctx.add("panics passed on (indexed)", 1);
        ctx.nontrivial(mix(at) ^ hash_bytes(&e.bytes) ^ log.len() as u64);
        log.push(format!("{op:?} with a panic at {at} of {n}"));
    }
    for op in [Op::Nodes, Op::Ways(0)] {
        let d = run_op(&mut ix, op);
        d.res.as_ref().map_err(|x| format!("{op:?} after {log:?}: {x}"))?;
        judge(&exp, op, &d).map_err(|m| format!("{op:?} after {log:?}: {m}"))?;
        ctx.eval();
    }
    ctx.sample(|| format!("{log:?} on {}", gen::describe(&f, &e)));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C33",
            rule: "errors by their debug text; judged: kind, message, cause, location, and conversion from and to I/O errors",
            minima: &[("evaluations", 1000), ("paths that cannot be opened", 15), ("failures of the source passed on", 200), ("damaged parts named", 200), ("facts found in messages", 1000)],
            directed: |_| 12,
            run: c33,
            ..BASE
        },
        Prop {
            id: "C34",
            rule: "repeated units of blobs by content and reader, and large blocks; judged: peak of the counting allocator for the long file against the short one",
            shards: 4,
            minima: &[("evaluations", 60), ("long files read", 40), ("blocks traversed", 4), ("readers used again and again", 12)],
            directed: |_| 36,
            run: c34,
            ..BASE
        },
        Prop {
            id: "C35",
            rule: "pairs of files of which one is 16 times the other in one respect, and the way they are read; judged: CPU time of the thread",
            shards: 4,
            minima: &[("evaluations", 140), ("pairs of runs timed", 140)],
            directed: |_| DIMS.len() as u64,
            run: c35,
            ..BASE
        },
        Prop {
            id: "C36",
            rule: "files and the call at which a callback panics; judged: the panic that arrives, what was delivered before it, and completeness of everything done afterwards",
            minima: &[("evaluations", 500), ("panics passed on (for_each)", 100), ("panics passed on (parallel)", 100), ("panics passed on (indexed)", 100)],
            run: c36,
            ..BASE
        },
    ]
}
