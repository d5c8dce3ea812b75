//! C37 to C39: sources that deliver their data little by little, work done in parallel and inside
//! callbacks, and what remains when readers are gone.

use super::index::{ix_file, judge, op_any, run_op, Op};
use super::util::*;
use super::{Prop, BASE};
use crate::alloc;
use crate::ctx::*;
use crate::ensure;
use crate::gen::{self, Cfg, Size};
use crate::model::*;
use crate::obs::*;
use crate::rng::*;
use crate::src::*;
use osmpbf::*;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::os::unix::ffi::OsStrExt;
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// How long something that must happen may take before the check calls it a hang.
const PATIENCE: Duration = Duration::from_secs(60);

fn err(what: &str) -> impl Fn(Error) -> Fail + '_ {
    move |e| format!("{what}: well-formed data: {e:?}").into()
}

fn live_file(r: &mut Rng) -> FileM {
    let mut cfg = Cfg::any(r);
    cfg.mixed_groups = false;
    gen::file(r, &cfg)
}

// ---------------------------------------------------------------------------------------------
// C37

/// Delivers bytes up to a limit. A read beyond it would wait: it is noted, and fails.
struct Tap {
    bytes: Arc<Vec<u8>>,
    pos: usize,
    limit: Arc<AtomicUsize>,
    waits: Arc<AtomicU64>,
    /// Every position is read once and in order
    read_to: usize,
    again: Arc<AtomicU64>,
    max: usize,
    calls: Arc<AtomicU64>,
    /// Called with the position of a read
    on_read: Option<Box<dyn Fn(usize) + Send>>,
}
impl Read for Tap {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        self.calls.fetch_add(1, SeqCst);
        if let Some(f) = &self.on_read {
            f(self.pos);
        }
        let limit = self.limit.load(SeqCst).min(self.bytes.len());
        if self.pos >= limit && limit < self.bytes.len() {
            self.waits.fetch_add(1, SeqCst);
            return Err(io::Error::new(io::ErrorKind::TimedOut, "nothing has arrived yet"));
        }
        if self.pos < self.read_to {
            self.again.fetch_add(1, SeqCst);
        }
        let n = buf.len().min(limit.saturating_sub(self.pos)).min(self.max);
        buf[..n].copy_from_slice(&self.bytes[self.pos..self.pos + n]);
        self.pos += n;
        self.read_to = self.read_to.max(self.pos);
        Ok(n)
    }
}
impl Seek for Tap {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        let n = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.bytes.len() as i128 + d as i128,
        };
        if n < 0 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}
impl Tap {
    fn new(bytes: &Arc<Vec<u8>>, max: usize) -> Tap {
        Tap {
            bytes: bytes.clone(),
            pos: 0,
            limit: Arc::new(AtomicUsize::new(0)),
            waits: Default::default(),
            read_to: 0,
            again: Default::default(),
            max,
            calls: Default::default(),
            on_read: None,
        }
    }
}

fn read_size(r: &mut Rng) -> usize {
    *r.pick(&[1usize, 3, 4, 100, 8192, 1 << 20, usize::MAX, usize::MAX])
}

fn c37(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let f = live_file(r);
    let e = encode(&f, r);
    if e.lay.is_empty() {
        return Ok(());
    }
    ctx.sample(|| gen::describe(&f, &e));
    ctx.nontrivial(hash_bytes(&e.bytes));
    match case % 8 {
        0 | 1 => c37_blobs(ctx, &f, &e, r),
        2 => c37_elements(ctx, &f, &e, r),
        3 | 4 => c37_lent(ctx, &f, &e, r),
        5 => c37_parallel(ctx, &f, &e, r),
        _ => c37_pipe(ctx, &f, &e, case, r),
    }
}

/// The payload of this stored blob, read by any means.
fn same_blob(b: &Blob, m: &BlobM, what: &str) -> R {
    ensure!(ty_str(&b.get_type()) == ty_exp(&m.ty), "{what}: type {:?}, stored {:?}", b.get_type(), m.ty);
    match b.decode() {
        Ok(BlobDecode::OsmData(p)) => {
            if let Some(x) = m.block() {
                match_block(&x.exp(), &via_callback(&p), u32::MAX).map_err(|x| format!("{what}: {x}"))?;
            }
        }
        Ok(_) => {}
        Err(x) => return Err(format!("{what}: does not decode: {x:?}").into()),
    }
    Ok(())
}

/// Blob and header iteration while the stream grows.
fn c37_blobs(ctx: &mut Ctx, f: &FileM, e: &Enc, r: &mut Rng) -> R {
    let seekable = r.chance(1, 2);
    let src = Tap::new(&e.bytes, read_size(r));
    let (limit, waits, again, calls) = (src.limit.clone(), src.waits.clone(), src.again.clone(), src.calls.clone());
    let name = if seekable { "seekable stream" } else { "stream" };
    let mut rd = if seekable { BlobReader::new_seekable(src).map_err(err(name))? } else { BlobReader::new(src) };
    ensure!(calls.load(SeqCst) == 0, "{name}: creating the reader already reads {} times", calls.load(SeqCst));
    if seekable {
        let src = Tap::new(&e.bytes, read_size(r));
        let calls = src.calls.clone();
        let ix = IndexedReader::new(src).map_err(err("IndexedReader::new"))?;
        ensure!(calls.load(SeqCst) == 0, "creating the indexed reader already reads {} times", calls.load(SeqCst));
        drop(ix);
        ctx.add("indexed readers created without reading", 1);
    }
    for (k, (l, m)) in e.lay.iter().zip(&f.blobs).enumerate() {
        let skip = seekable && r.chance(1, 3);
        let what = format!("{name}: {} {k} of {}", if skip { "header" } else { "blob" }, e.lay.len());
        limit.store(if skip { l.data_off() } else { l.end() } as usize, SeqCst);
        // Nothing may be asked for if nothing of the next blob has arrived
        if skip {
            match rd.next_header_skip_blob() {
                Some(Ok((h, _))) => {
                    ensure!(ty_str(&h.blob_type()) == ty_exp(&m.ty), "{what}: type {:?}", h.blob_type());
                    ensure!(h.get_blob_size() as u64 == l.data, "{what}: size {}, stored {}", h.get_blob_size(), l.data);
                }
                x => return Err(format!("{what}: all of it has arrived, but the reader returns {x:?} ({} reads of what has not)", waits.load(SeqCst)).into()),
            }
            ctx.add("headers delivered on arrival", 1);
        } else {
            match rd.next() {
                Some(Ok(b)) => same_blob(&b, m, &what)?,
                x => return Err(format!("{what}: all of it has arrived, but the reader returns {x:?} ({} reads of what has not)", waits.load(SeqCst)).into()),
            }
            ctx.add("blobs delivered on arrival", 1);
        }
        ensure!(waits.load(SeqCst) == 0, "{what}: the reader asks for data that is not part of it");
        ensure!(again.load(SeqCst) == 0, "{what}: the reader reads data again");
        ctx.eval();
    }
    limit.store(usize::MAX, SeqCst);
    ensure!(rd.next().is_none(), "{name}: no end after the last blob");
    Ok(())
}

/// The elements of a blob are delivered before anything behind it is asked for.
fn c37_elements(ctx: &mut Ctx, f: &FileM, e: &Enc, r: &mut Rng) -> R {
    let mut src = Tap::new(&e.bytes, read_size(r));
    let seen = Arc::new(AtomicUsize::new(0));
    let bad = Arc::new(Mutex::new(None::<String>));
    let mut ends = vec![];
    let mut n = 0;
    for (l, m) in e.lay.iter().zip(&f.blobs) {
        n += m.block().map_or(0, |b| b.count());
        ends.push((l.end() as usize, n));
    }
    let limit = src.limit.clone();
    let asked = Arc::new(AtomicU64::new(0));
    {
        let (seen, bad, ends, asked) = (seen.clone(), bad.clone(), ends.clone(), asked.clone());
        limit.store(ends[0].0, SeqCst);
        let limit = limit.clone();
        src.on_read = Some(Box::new(move |pos| {
            // All of this blob was read: now it must have been delivered.
            if let Some(k) = ends.iter().position(|x| x.0 == pos) {
                asked.fetch_add(1, SeqCst);
                let got = seen.load(SeqCst);
                if got != ends[k].1 {
                    bad.lock().unwrap().get_or_insert(format!("data behind blob {k} (ends at {pos}) is asked for after {got} elements were delivered, up to there are {}", ends[k].1));
                }
                limit.store(ends.get(k + 1).map_or(usize::MAX, |x| x.0), SeqCst);
            }
        }));
    }
    let calls = src.calls.clone();
    let rd = ElementReader::new(src);
    ensure!(calls.load(SeqCst) == 0, "creating the element reader already reads");
    rd.for_each(|x| {
        std::hint::black_box(&x);
        seen.fetch_add(1, SeqCst);
    })
    .map_err(err("for_each"))?;
    if let Some(x) = bad.lock().unwrap().take() {
        return Err(format!("for_each: {x}").into());
    }
    ensure!(seen.load(SeqCst) == n, "for_each: {} of {n} elements", seen.load(SeqCst));
    ctx.add("blobs whose elements were delivered on arrival", asked.load(SeqCst));
    ctx.eval();
    Ok(())
}

/// A source that was lent to a reader stands behind what was read.
fn c37_lent(ctx: &mut Ctx, f: &FileM, e: &Enc, r: &mut Rng) -> R {
    let mut src = Tap::new(&e.bytes, read_size(r));
    src.limit.store(usize::MAX, SeqCst);
    let mut k = 0;
    let mut log: Vec<String> = vec![];
    while k < f.blobs.len() {
        let n = 1 + r.us(3.min(f.blobs.len() - k));
        let how = r.below(4);
        let what = |log: &[String]| format!("blobs {k}..{} of {} by {}, after {log:?}", k + n, f.blobs.len(), ["BlobReader::new", "BlobReader::new_seekable", "next_header_skip_blob", "for_each on a part"][how as usize]);
        match how {
            0 => {
                for (i, b) in BlobReader::new(&mut src).take(n).enumerate() {
                    same_blob(&b.map_err(err(&what(&log)))?, &f.blobs[k + i], &what(&log))?;
                }
            }
            1 => {
                for (i, b) in BlobReader::new_seekable(&mut src).map_err(err("new_seekable"))?.take(n).enumerate() {
                    let b = b.map_err(err(&what(&log)))?;
                    ensure!(b.offset() == Some(ByteOffset(e.lay[k + i].off)), "{}: offset {:?}, stored at {}", what(&log), b.offset(), e.lay[k + i].off);
                    same_blob(&b, &f.blobs[k + i], &what(&log))?;
                }
            }
            2 => {
                let mut rd = BlobReader::new_seekable(&mut src).map_err(err("new_seekable"))?;
                for i in 0..n {
                    match rd.next_header_skip_blob() {
                        Some(Ok((h, o))) => ensure!(
                            ty_str(&h.blob_type()) == ty_exp(&f.blobs[k + i].ty) && o == Some(ByteOffset(e.lay[k + i].off)),
                            "{}: header {i} is {:?} at {o:?}",
                            what(&log),
                            h.blob_type()
                        ),
                        x => return Err(format!("{}: header {i}: {x:?}", what(&log)).into()),
                    }
                }
            }
            _ => {
                let len = e.lay[k + n - 1].end() - e.lay[k].off;
                let mut c = 0;
                ElementReader::new((&mut src).take(len)).for_each(|_| c += 1).map_err(err(&what(&log)))?;
                let stored: usize = f.blobs[k..k + n].iter().filter_map(|b| b.block()).map(|b| b.count()).sum();
                ensure!(c == stored, "{}: {c} elements, stored {stored}", what(&log));
            }
        }
        let at = e.lay[k + n - 1].end() as usize;
        ensure!(src.pos == at, "{}: the source stands at {}, the blob ends at {at}", what(&log), src.pos);
        log.push(format!("{how}x{n}"));
        k += n;
        ctx.add("times a lent source was continued", 1);
        ctx.eval();
    }
    Ok(())
}

/// The parallel reading maps what has arrived without waiting for more.
fn c37_parallel(ctx: &mut Ctx, f: &FileM, e: &Enc, r: &mut Rng) -> R {
    struct Gate {
        src: Tap,
        ends: Vec<(usize, u64)>,
        k: usize,
        seen: Arc<(Mutex<u64>, Condvar)>,
        bad: Arc<Mutex<Option<String>>>,
        waited: Arc<AtomicU64>,
    }
    impl Read for Gate {
        fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
            if !b.is_empty() && self.k < self.ends.len() && self.src.pos == self.ends[self.k].0 {
                // The next blob arrives when the elements of this one were seen.
                let want = self.ends[self.k].1;
                let (m, c) = &*self.seen;
                let (g, t) = c.wait_timeout_while(m.lock().unwrap(), PATIENCE, |x| *x < want).unwrap();
                if t.timed_out() {
                    let mut bad = self.bad.lock().unwrap();
                    bad.get_or_insert(format!("{} of {want} elements of the first {} blobs were mapped while the source waited for them", *g, self.k + 1));
                    return Err(io::Error::new(io::ErrorKind::TimedOut, "gate"));
                }
                self.waited.fetch_add(1, SeqCst);
                self.k += 1;
                self.src.limit.store(self.ends.get(self.k).map_or(usize::MAX, |x| x.0), SeqCst);
            }
            self.src.read(b)
        }
    }
    let threads = *r.pick(&[1usize, 2, 3, 4, 8]);
    let mut ends = vec![];
    let mut n = 0u64;
    for (l, m) in e.lay.iter().zip(&f.blobs) {
        n += m.block().map_or(0, |b| b.count() as u64);
        ends.push((l.end() as usize, n));
    }
    let seen = Arc::new((Mutex::new(0u64), Condvar::new()));
    let bad = Arc::new(Mutex::new(None));
    let waited = Arc::new(AtomicU64::new(0));
    let src = Tap::new(&e.bytes, read_size(r));
    src.limit.store(ends[0].0, SeqCst);
    let src = Gate { src, ends, k: 0, seen: seen.clone(), bad: bad.clone(), waited: waited.clone() };
    let res = pool(threads).install(|| {
        ElementReader::new(src).par_map_reduce(
            |x| {
                std::hint::black_box(&x);
                *seen.0.lock().unwrap() += 1;
                seen.1.notify_all();
                1u64
            },
            || 0,
            |a, b| a + b,
        )
    });
    let what = format!("par_map_reduce with {threads} threads on a live source of {} blobs", f.blobs.len());
    if let Some(x) = bad.lock().unwrap().take() {
        return Err(format!("{what}: {x}").into());
    }
    let res = res.map_err(err(&what))?;
    ensure!(res == n, "{what}: {res} of {n} elements");
    ctx.add("blobs mapped on arrival", waited.load(SeqCst));
    ctx.eval();
    Ok(())
}

/// Pipes, sockets and FIFOs: the writer goes on when the reader has told that it has got the blob.
fn c37_pipe(ctx: &mut Ctx, f: &FileM, e: &Enc, case: u64, r: &mut Rng) -> R {
    let kind = r.below(4);
    let name = ["socket", "FIFO by path (blobs)", "FIFO by path (elements)", "FIFO as a file"][kind as usize];
    let (ack, acked) = mpsc::channel::<usize>();
    let mut ends = vec![];
    let mut n = 0;
    for (l, m) in e.lay.iter().zip(&f.blobs) {
        n += m.block().map_or(0, |b| b.count());
        ends.push((l.end() as usize, n));
    }
    let fifo = ctx.scratch.join(format!("fifo-{case}"));
    let mk = || -> R {
        let c = std::ffi::CString::new(fifo.as_os_str().as_bytes()).unwrap();
        if unsafe { libc::mkfifo(c.as_ptr(), 0o600) } != 0 {
            return Err(broken(format!("mkfifo: {}", io::Error::last_os_error())));
        }
        Ok(())
    };
    let bytes = e.bytes.clone();
    let seed = r.u64();
    let by_elements = kind == 2;
    let ends2 = ends.clone();
    let gone = Arc::new(AtomicBool::new(false));
    let gone2 = gone.clone();
    let late = Arc::new(Mutex::new(None::<String>));
    let late2 = late.clone();
    let writer = move |mut w: Box<dyn Write + Send>| {
        let mut r = Rng::new(seed);
        let mut pos = 0;
        let mut have = 0;
        for (k, (end, count)) in ends2.iter().enumerate() {
            while pos < *end {
                let n = (1 + r.us(20000)).min(end - pos);
                if w.write_all(&bytes[pos..pos + n]).is_err() {
                    return;
                }
                pos += n;
                if r.chance(1, 4) {
                    std::thread::yield_now();
                }
            }
            // Wait until it was delivered
            let want = if by_elements { *count } else { k + 1 };
            let t = Instant::now();
            while have < want {
                match acked.recv_timeout(Duration::from_millis(100)) {
                    Ok(x) => have = x,
                    Err(_) if gone2.load(SeqCst) => return,
                    Err(_) if t.elapsed() > PATIENCE => {
                        late2.lock().unwrap().get_or_insert(format!("blob {k} of {} was completely sent, but is not delivered", ends2.len()));
                        return;
                    }
                    Err(_) => {}
                }
            }
        }
    };
    let blobs = |src: &mut dyn Iterator<Item = Result<Blob>>| -> R<u64> {
        let mut k = 0;
        for b in src {
            let b = b.map_err(err(name))?;
            ensure!(k < f.blobs.len(), "{name}: more blobs than stored");
            same_blob(&b, &f.blobs[k], &format!("{name}: blob {k}"))?;
            k += 1;
            let _ = ack.send(k);
        }
        ensure!(k == f.blobs.len(), "{name}: {k} of {} blobs", f.blobs.len());
        Ok(k as u64)
    };
    let h;
    let res = match kind {
        0 => {
            let (a, b) = std::os::unix::net::UnixStream::pair().map_err(|x| broken(format!("socket pair: {x}")))?;
            h = std::thread::spawn(move || writer(Box::new(a)));
            blobs(&mut BlobReader::new(b))
        }
        _ => {
            mk()?;
            let p = fifo.clone();
            h = std::thread::spawn(move || {
                if let Ok(w) = std::fs::OpenOptions::new().write(true).open(&p) {
                    writer(Box::new(w))
                }
            });
            match kind {
                1 => match BlobReader::from_path(&fifo) {
                    Ok(mut rd) => blobs(&mut rd),
                    Err(x) => Err(format!("{name}: cannot be opened: {x:?}").into()),
                },
                3 => match std::fs::File::open(&fifo) {
                    Ok(file) => blobs(&mut BlobReader::new(file)),
                    Err(x) => Err(broken(format!("open FIFO: {x}"))),
                },
                _ => match ElementReader::from_path(&fifo) {
                    Ok(rd) => {
                        let mut c = 0;
                        let x = rd.for_each(|x| {
                            std::hint::black_box(&x);
                            c += 1;
                            let _ = ack.send(c);
                        });
                        match x {
                            Ok(()) if c == n => Ok(f.blobs.len() as u64),
                            x => Err(format!("{name}: {c} of {n} elements, then {x:?}").into()),
                        }
                    }
                    Err(x) => Err(format!("{name}: cannot be opened: {x:?}").into()),
                },
            }
        }
    };
    gone.store(true, SeqCst);
    if kind != 0 && res.is_err() {
        // Release a writer that still waits to open
        use std::os::unix::fs::OpenOptionsExt;
        let _ = std::fs::OpenOptions::new().read(true).custom_flags(libc::O_NONBLOCK).open(&fifo);
    }
    let _ = h.join();
    let _ = std::fs::remove_file(&fifo);
    if let Some(x) = late.lock().unwrap().take() {
        return Err(format!("{name}: {x}").into());
    }
    ctx.add("blobs delivered on arrival from pipes and sockets", res?);
    ctx.add(&format!("pipes and sockets read ({name})"), 1);
    ctx.eval();
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C38

fn c38(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    match case % 3 {
        0 => c38_together(ctx, r),
        _ => c38_nested(ctx, case, r),
    }
}

/// As many map calls at the same time as there are threads.
fn c38_together(ctx: &mut Ctx, r: &mut Rng) -> R {
    let threads = *r.pick(&[2usize, 2, 3, 4, 5, 8, 9, 12, 16, 24]);
    let cfg = Cfg::sized(Size::Tiny);
    let n = threads + if r.chance(1, 2) { 0 } else { r.us(3 * threads) };
    let mut f = FileM::default();
    while f.blobs.iter().filter(|b| b.block().is_some()).count() < n {
        let b = gen::block(r, &cfg);
        if b.count() > 0 {
            f.blobs.push(gen::data_blob(r, &cfg, b));
        }
        if r.chance(1, 5) {
            f.blobs.push(gen::header_blob(r, &cfg));
        }
    }
    let e = encode(&f, r);
    let total: u64 = f.blobs.iter().filter_map(|b| b.block()).map(|b| b.count() as u64).sum();
    let p = pool(threads);
    // (calls now, most calls at the same time)
    let state = Mutex::new((0usize, 0usize));
    let cond = Condvar::new();
    let foreign = AtomicU64::new(0);
    let seq = AtomicU64::new(0);
    let t = Instant::now();
    let res = p.install(|| {
        ElementReader::new(Src::bytes(&e.bytes)).par_map_reduce(
            |x| {
                std::hint::black_box(&x);
                if rayon::current_thread_index().map_or(true, |i| i >= threads) || rayon::current_num_threads() != threads {
                    foreign.fetch_add(1, SeqCst);
                }
                seq.fetch_add(1, SeqCst);
                let mut g = state.lock().unwrap();
                g.0 += 1;
                g.1 = g.1.max(g.0);
                cond.notify_all();
                // Nobody leaves before all threads were here once.
                while g.1 < threads && t.elapsed() < PATIENCE {
                    g = cond.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                }
                g.0 -= 1;
                1u64
            },
            || 0,
            |a, b| a + b,
        )
    });
    let what = format!("par_map_reduce with {threads} threads over {n} data blobs");
    let res = res.map_err(err(&what))?;
    ensure!(res == total, "{what}: {res} of {total} elements");
    let most = state.lock().unwrap().1;
    ensure!(most == threads, "{what}: never more than {most} map calls at the same time, though they wait for each other");
    ensure!(foreign.load(SeqCst) == 0, "{what}: {} of {} calls outside of the pool it was started in", foreign.load(SeqCst), seq.load(SeqCst));
    ctx.add(&format!("runs with all {threads} threads at the same time"), 1);
    ctx.eval();
    ctx.nontrivial(hash_bytes(&e.bytes) ^ threads as u64);
    Ok(())
}

/// The library is used inside the functions that it calls.
fn c38_nested(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let size = *r.pick(&[Size::Tiny, Size::Tiny, Size::Small]);
    let f = ix_file(r, size, 0);
    let g = ix_file(r, Size::Tiny, 0);
    let (e, d) = (encode(&f, r), encode(&g, r));
    let exp: Vec<El> = f.exp().into_iter().flatten().flatten().collect();
    let inner_exp = g.exp();
    let inner_n = inner_exp.iter().flatten().map(|k| k.len() as u64).sum::<u64>();
    let inner_nodes = inner_exp.iter().map(|k| (k[0].len() + k[1].len()) as u64).sum::<u64>();
    let outer = r.below(4);
    let inner = r.below(5);
    let threads = *r.pick(&[1usize, 1, 2, 3, 4, 8]);
    let every = 1 + r.below(5);
    let calls = AtomicU64::new(0);
    let bad = Mutex::new(None::<String>);
    let path = ctx.file("nested.pbf", &d.bytes)?;
    let one_blob = BlobReader::new(Cursor::new(&d.bytes[..])).flatten().find(|b| b.get_type() == BlobType::OsmData);
    let one_hash = one_blob.as_ref().map(|b| b.to_primitiveblock().map(|p| via_elements(&p).iter().map(el_hash).fold(0, |a, b| mix(a ^ b))).unwrap_or(0));
    let ran = AtomicU64::new(0);
    let work = || {
        if calls.fetch_add(1, SeqCst) % every != 0 {
            return;
        }
        ran.fetch_add(1, SeqCst);
        let (got, want): (std::result::Result<u64, String>, u64) = match inner {
            0 => (ElementReader::new(Src::bytes(&d.bytes)).par_map_reduce(|_| 1u64, || 0, |a, b| a + b).map_err(|e| format!("{e:?}")), inner_n),
            1 => {
                let mut n = 0;
                (ElementReader::new(Src::bytes(&d.bytes)).for_each(|_| n += 1).map(|_| n).map_err(|e| format!("{e:?}")), inner_n)
            }
            2 => {
                let mut n = 0;
                let x = IndexedReader::from_path(&path).and_then(|mut ix| ix.for_each_node(|_| n += 1));
                (x.map(|_| n).map_err(|e| format!("{e:?}")), inner_nodes)
            }
            3 => {
                let x = unsafe { Mmap::from_path(&path) }.map(|m| {
                    let mut n = 0;
                    for b in m.blob_iter().flatten() {
                        if let Ok(BlobDecode::OsmData(p)) = b.decode() {
                            p.for_each_element(|_| n += 1);
                        }
                    }
                    n
                });
                (x.map_err(|e| format!("{e:?}")), inner_n)
            }
            _ => match &one_blob {
                None => (Ok(0), 0),
                Some(b) => (b.to_primitiveblock().map(|p| via_elements(&p).iter().map(el_hash).fold(0, |a, b| mix(a ^ b))).map_err(|e| format!("{e:?}")), one_hash.unwrap()),
            },
        };
        if got != Ok(want) {
            bad.lock().unwrap().get_or_insert(format!("the inner read gives {got:?}, expected {want}"));
        }
    };
    let names = (["par_map_reduce", "for_each", "IndexedReader", "for_each_element"][outer as usize], ["par_map_reduce", "for_each", "IndexedReader", "Mmap", "decode of a shared blob"][inner as usize]);
    let what = format!("{} inside of {} with {threads} threads, every {every} calls", names.1, names.0);
    // A hang is judged from outside: the parent ends a shard that makes no progress.
    let got: std::result::Result<Vec<El>, String> = match outer {
        0 => {
            let place = r.below(3);
            pool(threads)
                .install(|| {
                    ElementReader::new(Src::bytes(&e.bytes)).par_map_reduce(
                        |x| {
                            if place == 0 {
                                work();
                            }
                            vec![ob(&x)]
                        },
                        || {
                            if place == 1 {
                                work();
                            }
                            vec![]
                        },
                        |mut a, mut b| {
                            if place == 2 {
                                work();
                            }
                            a.append(&mut b);
                            a
                        },
                    )
                })
                .map_err(|x| format!("{x:?}"))
        }
        1 => {
            let mut v = vec![];
            pool(threads)
                .install(|| {
                    ElementReader::new(Src::bytes(&e.bytes)).for_each(|x| {
                        v.push(ob(&x));
                        work();
                    })
                })
                .map(|_| v)
                .map_err(|x| format!("{x:?}"))
        }
        2 => {
            let op = loop {
                let op = op_any(r);
                if op != Op::Index {
                    break op;
                }
            };
            let mut v = vec![];
            let mut ix = IndexedReader::new(Src::bytes(&e.bytes)).map_err(err("new"))?;
            let mut side = IndexedReader::new(Src::bytes(&e.bytes)).map_err(err("new"))?;
            let d = run_op(&mut side, op);
            judge(&f.exp(), op, &d).map_err(|m| format!("{op:?}: {m}"))?;
            let x = match op {
                Op::Nodes => ix.for_each_node(|x| {
                    v.push(ob(&x));
                    work();
                }),
                _ => ix.read_ways_and_deps(
                    |w| {
                        work();
                        w.id() % 2 == 0
                    },
                    |x| {
                        v.push(ob(x));
                        work();
                    },
                ),
            };
            x.map_err(|x| format!("{what}: {x:?}"))?;
            // Judged against the same query without inner reads
            let mut w = vec![];
            let mut plain = IndexedReader::new(Src::bytes(&e.bytes)).map_err(err("new"))?;
            let x = match op {
                Op::Nodes => plain.for_each_node(|x| w.push(ob(&x))),
                _ => plain.read_ways_and_deps(|w| w.id() % 2 == 0, |x| w.push(ob(x))),
            };
            x.map_err(|x| format!("{what}: {x:?}"))?;
            ensure!(v.iter().map(el_hash).eq(w.iter().map(el_hash)), "{what}: {op:?} delivers {} elements, without inner reads {}", v.len(), w.len());
            Ok(exp.clone())
        }
        _ => {
            let mut v = vec![];
            let mut x = Ok(());
            for b in BlobReader::new(Cursor::new(&e.bytes[..])) {
                match b.and_then(|b| b.decode().map(|d| if let BlobDecode::OsmData(p) = d { Some(p) } else { None })) {
                    Ok(Some(p)) => p.for_each_element(|x| {
                        v.push(ob(&x));
                        work();
                        // The same block again
                        if r.chance(1, 20) && p.elements().count() == 0 {
                            bad.lock().unwrap().get_or_insert("the block being traversed has no elements".into());
                        }
                    }),
                    Ok(None) => {}
                    Err(e) => x = Err(format!("{e:?}")),
                }
            }
            x.map(|_| v)
        }
    };
    if let Some(x) = bad.lock().unwrap().take() {
        return Err(format!("{what}: {x}").into());
    }
    let got = got.map_err(|x| format!("{what}: {x}"))?;
    ensure!(got.len() == exp.len(), "{what}: {} of {} elements", got.len(), exp.len());
    let sum = |v: &[El]| v.iter().map(el_hash).fold(0u64, |a, b| a.wrapping_add(mix(b)));
    ensure!(sum(&got) == sum(&exp), "{what}: other elements than stored");
    ctx.add(&format!("reads inside of {}", names.0), ran.load(SeqCst));
    ctx.eval();
    ctx.nontrivial(hash_bytes(&e.bytes) ^ mix(outer * 8 + inner) ^ case);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C39

/// Open descriptors, by what they lead to.
fn fds() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd").map(|d| d.flatten().filter_map(|x| std::fs::read_link(x.path()).ok()).map(|x| x.to_string_lossy().into_owned()).filter(|x| !x.contains("/proc/")).collect()).unwrap_or_default();
    v.sort();
    v
}
fn maps_of(p: &Path) -> Vec<String> {
    let p = p.to_string_lossy();
    std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines().filter(|l| l.contains(&*p)).map(|l| l.to_string()).collect()
}
fn threads_now() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

const USES: &[&str] = &["BlobReader::from_path", "BlobReader::seekable_from_path", "ElementReader::from_path (for_each)", "ElementReader::from_path (parallel)", "IndexedReader::from_path", "Mmap::from_path", "Mmap::from_file", "streams", "failing constructors", "callbacks that panic"];

/// One use of the library, which ends at some point.
fn use_it(how: usize, p: &Path, e: &Enc, stop: u64, seed: u64) {
    let mut r = Rng::new(seed);
    let mut kept: Vec<Blob> = vec![];
    match how {
        0 | 1 => {
            let rd = if how == 0 { BlobReader::from_path(p) } else { BlobReader::seekable_from_path(p) };
            let Ok(mut rd) = rd else { return };
            for _ in 0..stop {
                match rd.next() {
                    Some(Ok(b)) => {
                        let d = b.decode();
                        if let Ok(BlobDecode::OsmData(p)) = &d {
                            let mut it = p.elements();
                            for _ in 0..r.us(20) {
                                if let Some(x) = it.next() {
                                    let _ = ob(&x);
                                }
                            }
                            let _ = p.clone().elements().count();
                        }
                        if let Ok(BlobDecode::OsmHeader(h)) = &d {
                            let _ = ob_header(h);
                        }
                        let _ = ty_str(&b.get_type());
                        kept.push(b.clone());
                    }
                    Some(Err(x)) => drop(io::Error::from(x)),
                    None => break,
                }
                if how == 1 && r.chance(1, 4) {
                    let _ = rd.next_header_skip_blob();
                    let _ = rd.blob_from_offset(ByteOffset(e.lay[0].off));
                    let _ = rd.seek(ByteOffset(e.lay[e.lay.len() - 1].off));
                }
            }
            if r.chance(1, 2) {
                drop(rd);
                kept.truncate(1);
            }
        }
        2 => {
            let Ok(rd) = ElementReader::from_path(p) else { return };
            if stop > 1 {
                let _ = rd.for_each(|x| drop(ob(&x)));
            }
        }
        3 => {
            let Ok(rd) = ElementReader::from_path(p) else { return };
            if stop > 1 {
                let _ = pool(2).install(|| rd.par_map_reduce(|x| vec![ob(&x)], Vec::new, |mut a, mut b| {
                    a.append(&mut b);
                    a
                }));
            }
        }
        4 => {
            let Ok(mut ix) = IndexedReader::from_path(p) else { return };
            for _ in 0..stop.min(4) {
                let op = op_any(&mut r);
                let _ = run_op(&mut ix, op);
            }
        }
        5 | 6 => {
            let m = if how == 5 {
                unsafe { Mmap::from_path(p) }
            } else {
                match std::fs::File::open(p) {
                    Ok(f) => unsafe { Mmap::from_file(&f) },
                    Err(_) => return,
                }
            };
            let Ok(m) = m else { return };
            for b in m.blob_iter().take(stop as usize) {
                match b {
                    Ok(b) => drop(b.clone().decode().is_ok()),
                    Err(x) => drop(io::Error::from(x)),
                }
            }
            let mut it = MmapBlobReader::new(&m);
            it.seek(ByteOffset(e.lay[0].off));
            let _ = it.clone().count();
        }
        7 => {
            let mut s = BlobReader::new_seekable(Cursor::new(&e.bytes[..])).unwrap();
            for _ in 0..stop {
                let _ = s.next_header_skip_blob();
                let _ = s.clone().next().map(|b| b.map(|b| b.to_primitiveblock().is_ok()));
            }
            let mut ix = IndexedReader::new(Cursor::new(&e.bytes[..])).unwrap();
            let _ = run_op(&mut ix, Op::Ways(2));
            let _ = ElementReader::new(&e.bytes[..]).for_each(|_| {});
        }
        8 => {
            let missing = p.with_extension("missing");
            let dir = p.parent().unwrap();
            for q in [&missing, dir] {
                drop(BlobReader::from_path(q).map(|mut b| b.next().is_some()));
                drop(BlobReader::seekable_from_path(q).map(|mut b| b.next_header_skip_blob().is_some()));
                drop(ElementReader::from_path(q).map(|b| b.for_each(|_| {}).is_ok()));
                drop(IndexedReader::from_path(q).map(|mut b| b.for_each_node(|_| {}).is_ok()));
                drop(unsafe { Mmap::from_path(q) });
            }
        }
        _ => {
            let n = std::cell::Cell::new(0u64);
            let hit = || {
                n.set(n.get() + 1);
                if n.get() == stop {
                    std::panic::resume_unwind(Box::new(stop));
                }
            };
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _ = ElementReader::from_path(p).map(|rd| rd.for_each(|_| hit()));
            }));
            n.set(0);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _ = IndexedReader::from_path(p).map(|mut rd| rd.read_ways_and_deps(|_| true, |_| hit()));
            }));
        }
    }
}

const MARK: &[u8; 8] = b"@@@@@@@@";

/// Blobs with strings that are different in each round.
fn marked(r: &mut Rng) -> Vec<BlobM> {
    let s = |x: &str| format!("{x}@@@@@@@@");
    let strings: Vec<Vec<u8>> = ["", "k", "v", "user", "role"].iter().map(|x| if x.is_empty() { vec![] } else { s(x).into_bytes() }).collect();
    let info = Some(InfoM { version: Some(1), timestamp: Some(5), changeset: Some(6), uid: Some(7), user_sid: Some(3), visible: None });
    let tags = vec![(1u32, 2u32)];
    let node = |id| NodeM { id, lat: 1, lon: 2, tags: tags.clone(), info: info.clone() };
    let mut b = gen::block_params(r, &Cfg::sized(Size::Tiny));
    b.strings = strings;
    b.groups = vec![
        GroupM { dense: Some(DenseM { nodes: vec![node(1), node(2)], with_kv: true, info: DInfo::NoVisible }), ..Default::default() },
        GroupM { nodes: vec![node(3)], ..Default::default() },
        GroupM { ways: vec![WayM { id: 1, tags: tags.clone(), info: info.clone(), refs: vec![1, 3], locs: None }], ..Default::default() },
        GroupM { rels: vec![RelM { id: 1, tags, info, members: vec![(0, 1, 4)] }], ..Default::default() },
    ];
    let h = HeaderM { required: vec![s("required")], optional: vec![s("optional")], program: Some(s("program")), source: Some(s("source")), rep_url: Some(s("url")), ..Default::default() };
    let mut u = BlobM::data(b.clone());
    u.ty = s("Type");
    vec![BlobM::header(h), BlobM::data(b), u]
}

fn c39(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    if case % 3 == 2 {
        return c39_outlive(ctx, case, r);
    }
    let size = *r.pick(&[Size::Tiny, Size::Small]);
    let mut f = ix_file(r, size, 0);
    f.blobs.push(gen::header_blob(r, &Cfg::sized(Size::Tiny)));
    let vary = r.chance(1, 2);
    if vary {
        f.blobs.truncate(3);
        f.blobs.extend(marked(r));
    }
    let mut e = encode(&f, r);
    let mut state = if vary { "with other strings each time" } else { "intact" };
    if !vary && r.chance(1, 4) {
        // Damaged at some place
        let mut v = (*e.bytes).clone();
        if r.chance(1, 2) {
            let n = r.us(v.len());
            v.truncate(n);
            state = "truncated";
        } else {
            let k = r.us(v.len());
            v[k] ^= 1 << r.below(8);
            state = "damaged";
        }
        e.bytes = Arc::new(v);
    }
    let how = (case / 3) as usize % USES.len();
    let p = ctx.file(&format!("released-{}.pbf", case % 64), &e.bytes)?;
    let (stop, seed) = (1 + r.below(6), r.u64());
    let stop = if vary { stop + 5 } else { stop };
    let marks: Vec<usize> = e.bytes.windows(8).enumerate().filter(|(_, w)| *w == &MARK[..]).map(|x| x.0).collect();
    let mut round = case << 20;
    let mut once = || {
        if !vary {
            return use_it(how, &p, &e, stop, seed);
        }
        round += 1;
        let mut v = (*e.bytes).clone();
        for k in &marks {
            let mut x = mix(round);
            for b in &mut v[*k..*k + 8] {
                *b = b'a' + (x % 26) as u8;
                x /= 26;
            }
        }
        let _ = std::fs::write(&p, &v);
        use_it(how, &p, &Enc { bytes: Arc::new(v), lay: e.lay.clone() }, stop, seed)
    };
    // Everything that is made once
    for _ in 0..3 {
        once();
    }
    let rounds = if how == 3 { 60 } else { 12 };
    // Queues of the thread pool are released with a delay.
    let slack = if how == 3 { 64 << 10 } else { 0 };
    let what = format!("{} of a file ({state}, {} bytes), {rounds} times", USES[how], e.bytes.len());
    let mut tries = 0;
    let (before, after, grown, maps) = loop {
        let before = (fds(), threads_now());
        let m0 = alloc::current();
        for _ in 0..rounds {
            once();
        }
        let grown = alloc::current() as i64 - m0 as i64;
        let after = (fds(), threads_now());
        let maps = maps_of(&p);
        tries += 1;
        // Other threads of this process may do something once; what leaks does so every time.
        if (before.0.len() == after.0.len() && before.1 >= after.1 && grown <= slack) || tries == 5 {
            break (before, after, grown, maps);
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_file(&p);
    ensure!(before.0.len() == after.0.len(), "{what}: open files before {:?}, after {:?}", before.0, after.0);
    ensure!(before.1 >= after.1, "{what}: {} threads before, {} after", before.1, after.1);
    ensure!(maps.is_empty(), "{what}: still mapped: {maps:?}");
    ctx.max(if how == 3 { "growth after parallel reads (bytes)" } else { "growth after reads (bytes)" }, grown.max(0) as u64);
    ensure!(grown <= slack, "{what}: {grown} bytes of memory are not released");
    ctx.add(&format!("uses released ({})", USES[how]), rounds);
    ctx.add(&format!("uses of files: {state}"), rounds);
    ctx.eval();
    ctx.nontrivial(hash_bytes(&e.bytes) ^ mix(how as u64 ^ stop << 8));
    ctx.sample(|| format!("{what}: {} descriptors, {} threads, growth {grown}", after.0.len(), after.1));
    Ok(())
}

/// Files are only read; what was read from them remains when they change or go.
fn c39_outlive(ctx: &mut Ctx, case: u64, r: &mut Rng) -> R {
    let size = *r.pick(&[Size::Tiny, Size::Small]);
    let f = ix_file(r, size, 0);
    let e = encode(&f, r);
    let exp = f.exp();
    let p = ctx.file(&format!("outlive-{}.pbf", case % 64), &e.bytes)?;
    let mut blobs = BlobReader::seekable_from_path(&p).map_err(err("seekable_from_path"))?;
    let mut all = BlobReader::from_path(&p).map_err(err("from_path"))?;
    let rest = ElementReader::from_path(&p).map_err(err("from_path"))?;
    let mut ix = IndexedReader::from_path(&p).map_err(err("from_path"))?;
    let map = unsafe { Mmap::from_path(&p) }.map_err(err("Mmap"))?;
    // How the file is open
    let text = p.to_string_lossy().into_owned();
    let mut open = 0;
    for x in std::fs::read_dir("/proc/self/fd").map_err(|x| broken(format!("{x}")))?.flatten() {
        if std::fs::read_link(x.path()).map_or(false, |l| l.to_string_lossy() == text) {
            let n: i32 = x.file_name().to_string_lossy().parse().unwrap_or(-1);
            let fl = unsafe { libc::fcntl(n, libc::F_GETFL) };
            ensure!(fl & libc::O_ACCMODE == libc::O_RDONLY, "the file is open with flags {fl:o}, which allow writing");
            open += 1;
        }
    }
    for l in maps_of(&p) {
        ensure!(l.split_whitespace().nth(1).map_or(false, |x| !x.contains('w')), "the memory map can be written: {l}");
        open += 1;
    }
    ctx.add("open files and maps that allow reading only", open);
    // Some is read before
    let early = r.us(f.blobs.len() + 1);
    let mut kept = vec![];
    for b in (&mut all).take(early) {
        kept.push(b.map_err(err("from_path"))?);
    }
    let blocks: Vec<(usize, PrimitiveBlock)> = kept.iter().enumerate().filter(|(_, b)| b.get_type() == BlobType::OsmData).filter_map(|(k, b)| b.to_primitiveblock().ok().map(|p| (k, p))).collect();
    if r.chance(1, 2) {
        ix.create_index().map_err(err("create_index"))?;
    }
    let other = encode(&ix_file(r, Size::Tiny, 0), r);
    let q = p.with_extension("new");
    let mode = r.below(3);
    let how = ["deleted", "replaced", "changed in place after everything was read"][mode as usize];
    let check = |kept: &[Blob], what: &str| -> R {
        for (k, b) in kept.iter().enumerate() {
            same_blob(b, &f.blobs[k], &format!("file {how}: {what}: blob {k}"))?;
            ensure!(b.offset() == Some(ByteOffset(e.lay[k].off)), "file {how}: {what}: blob {k} at {:?}", b.offset());
        }
        Ok(())
    };
    match mode {
        0 => std::fs::remove_file(&p).map_err(|x| broken(format!("{x}")))?,
        1 => {
            std::fs::write(&q, &*other.bytes).and_then(|_| std::fs::rename(&q, &p)).map_err(|x| broken(format!("{x}")))?;
        }
        _ => {
            // All blobs first; readers and map are gone before the file changes
            for b in &mut all {
                kept.push(b.map_err(err("from_path"))?);
            }
            drop((blobs, rest, ix, map, all));
            std::fs::write(&p, vec![0xff; e.bytes.len() / 2]).map_err(|x| broken(format!("{x}")))?;
            check(&kept, "blobs read before")?;
            ensure!(kept.len() == f.blobs.len(), "{} of {} blobs", kept.len(), f.blobs.len());
            for (k, b) in &blocks {
                match_block(&f.blobs[*k].block().unwrap().exp(), &via_elements(b), u32::MAX).map_err(|x| format!("file {how}: block {k}: {x}"))?;
            }
            let _ = std::fs::remove_file(&p);
            ctx.add(&format!("blobs used after the file was {how}"), kept.len() as u64);
            ctx.eval();
            return Ok(());
        }
    }
    // Readers go on with the file that they opened.
    check(&kept, "blobs read before")?;
    for b in &mut all {
        kept.push(b.map_err(err("iteration continued"))?);
    }
    drop(all);
    check(&kept, "iteration continued")?;
    ensure!(kept.len() == f.blobs.len(), "file {how}: {} of {} blobs", kept.len(), f.blobs.len());
    for l in &e.lay {
        let b = blobs.blob_from_offset(ByteOffset(l.off)).map_err(err("blob_from_offset"))?;
        ensure!(b.offset() == Some(ByteOffset(l.off)), "file {how}: blob from offset {} has offset {:?}", l.off, b.offset());
    }
    let mut n = 0;
    rest.for_each(|_| n += 1).map_err(err("for_each"))?;
    let total: usize = exp.iter().flatten().map(|k| k.len()).sum();
    ensure!(n == total, "file {how}: for_each delivers {n} of {total} elements");
    for op in [Op::Nodes, Op::Ways(0), Op::Nodes] {
        let d = run_op(&mut ix, op);
        d.res.as_ref().map_err(|x| format!("file {how}: {op:?}: {x}"))?;
        judge(&exp, op, &d).map_err(|m| format!("file {how}: {op:?}: {m}"))?;
    }
    let mut k = 0;
    for b in map.blob_iter() {
        let b = b.map_err(err("mapped blob"))?;
        if let (Ok(BlobDecode::OsmData(p)), Some(x)) = (b.decode(), f.blobs[k].block()) {
            match_block(&x.exp(), &via_elements(&p), u32::MAX).map_err(|x| format!("file {how}: mapped blob {k}: {x}"))?;
        }
        k += 1;
    }
    ensure!(k == f.blobs.len(), "file {how}: {k} of {} mapped blobs", f.blobs.len());
    if mode == 1 {
        let now = std::fs::read(&p).map_err(|x| broken(format!("{x}")))?;
        ensure!(now == *other.bytes, "the file that replaced the one being read has changed");
        let _ = std::fs::remove_file(&p);
    } else {
        ensure!(!p.exists(), "the deleted file is there again");
    }
    ctx.add(&format!("blobs used after the file was {how}"), kept.len() as u64);
    ctx.eval();
    ctx.nontrivial(hash_bytes(&e.bytes) ^ mode);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C37",
            rule: "files whose bytes arrive blob by blob, from instrumented sources, sockets and FIFOs; judged: delivery without a request for later bytes, position of a lent source",
            minima: &[("evaluations", 500), ("blobs delivered on arrival", 200), ("times a lent source was continued", 200), ("blobs mapped on arrival", 100), ("blobs delivered on arrival from pipes and sockets", 50)],
            run: c37,
            ..BASE
        },
        Prop {
            id: "C38",
            rule: "files, thread counts and what is read inside of which callback; judged: map calls at the same time, the pool they run in, and complete results of outer and inner reads",
            minima: &[("evaluations", 200), ("reads inside of par_map_reduce", 100), ("reads inside of IndexedReader", 100), ("reads inside of for_each", 100)],
            run: c38,
            ..BASE
        },
        Prop {
            id: "C39",
            rule: "files and uses of the library, ended at some point; judged: open descriptors, maps, threads and allocated bytes afterwards, and what was read before a file went away",
            minima: &[("evaluations", 200), ("uses of files: intact", 100), ("uses of files: with other strings each time", 100), ("open files and maps that allow reading only", 100)],
            directed: |_| 30,
            run: c39,
            ..BASE
        },
    ]
}
