//! Shared by the monitors.

use crate::ctx::*;
use crate::model::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::io::Cursor;
use std::sync::Arc;

/// The blocks of all data blobs, read by one of the ways the library offers.
pub const ROUTES: &[&str] = &["stream", "decode", "seekable", "mmap", "file", "clone", "fragmented", "by-offset"];

pub fn read_blocks(ctx: &mut Ctx, e: &Enc, route: usize, r: &mut Rng) -> R<Vec<PrimitiveBlock>> {
    let mut v = vec![];
    let name = ROUTES[route];
    let mut take = |b: &Blob, how: usize| -> R {
        if b.get_type() == BlobType::OsmData {
            v.push(match how {
                0 => b.to_primitiveblock().map_err(|x| format!("{name}: intact blob does not decode: {x:?}"))?,
                _ => match b.decode().map_err(|x| format!("{name}: intact blob does not decode: {x:?}"))? {
                    BlobDecode::OsmData(p) => p,
                    x => return Err(format!("{name}: data blob decodes to {x:?}").into()),
                },
            });
        }
        Ok(())
    };
    let err = |x: Error| Fail::from(format!("{name}: well-formed file: {x:?}"));
    match name {
        "stream" | "decode" => {
            for b in BlobReader::new(Cursor::new(&e.bytes[..])) {
                take(&b.map_err(err)?, route)?;
            }
        }
        "seekable" => {
            for b in BlobReader::new_seekable(Cursor::new(&e.bytes[..])).map_err(err)? {
                take(&b.map_err(err)?, 0)?;
            }
        }
        "clone" => {
            for b in BlobReader::new(Cursor::new(&e.bytes[..])).clone() {
                take(&b.map_err(err)?.clone(), 1)?;
            }
        }
        "fragmented" => {
            let s = Src::bytes(&e.bytes).chunk(chunk_any(r, &e.lay), r.u64());
            for b in BlobReader::new(NoSeek(s)) {
                take(&b.map_err(err)?, 0)?;
            }
        }
        "file" => {
            let p = ctx.file("blocks.pbf", &e.bytes)?;
            for b in BlobReader::from_path(&p).map_err(err)? {
                take(&b.map_err(err)?, 1)?;
            }
        }
        "by-offset" => {
            let mut rd = BlobReader::new_seekable(Cursor::new(&e.bytes[..])).map_err(err)?;
            for l in &e.lay {
                take(&rd.blob_from_offset(ByteOffset(l.off)).map_err(err)?, 0)?;
            }
        }
        "mmap" => {
            let p = ctx.file("blocks.pbf", &e.bytes)?;
            let m = unsafe { Mmap::from_path(&p) }.map_err(err)?;
            for b in m.blob_iter() {
                let b = b.map_err(err)?;
                if b.get_type() == BlobType::OsmData {
                    match b.decode().map_err(|x| format!("mmap: intact blob does not decode: {x:?}"))? {
                        BlobDecode::OsmData(p) => v.push(p),
                        x => return Err(format!("mmap: data blob decodes to {x:?}").into()),
                    }
                }
            }
        }
        _ => unreachable!(),
    }
    ctx.add(&format!("blocks read ({name})"), v.len() as u64);
    Ok(v)
}

pub fn content_hash(exp: &[[Vec<El>; 4]]) -> u64 {
    let mut h = exp.len() as u64;
    for g in exp {
        for k in g {
            h = mix(h ^ k.len() as u64);
            for e in k {
                h = mix(h ^ el_hash(e));
            }
        }
    }
    h
}

pub fn count_kinds(ctx: &mut Ctx, exp: &[[Vec<El>; 4]]) {
    let n = |k: usize| exp.iter().map(|g| g[k].len() as u64).sum::<u64>();
    ctx.add("plain nodes", n(0));
    ctx.add("dense nodes", n(1));
    ctx.add("ways", n(2));
    ctx.add("relations", n(3));
}

/// Rayon pools by number of threads.
pub fn pool(n: usize) -> Arc<rayon::ThreadPool> {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static P: Mutex<Option<HashMap<usize, Arc<rayon::ThreadPool>>>> = Mutex::new(None);
    let mut g = P.lock().unwrap();
    g.get_or_insert_with(HashMap::new)
        .entry(n)
        .or_insert_with(|| Arc::new(rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()))
        .clone()
}
