//! Supervision: shards, watchdogs, verdicts, evidence.

use crate::ctx::*;
use crate::props::{self, Prop};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// CPU seconds one case may use. Cases need a fraction of a second (some a few); a case that does
/// not finish within this has made no bounded progress.
const CASE_CPU_S: u64 = 150;
/// Seconds without any progress, all threads asleep.
const DEADLOCK_S: u64 = 60;

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);

thread_local! {
    /// Panics on this thread are expected to be caught and judged by the check itself.
    pub static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn usage() -> i32 {
    eprintln!("usage: mon list | mon <property> [--tier quick|thorough] [--seed N] [--case N] [--secs N] [--out evidence.json] [--replay-dir DIR] [--known FILE] [--shards N] [--label TEXT]");
    2
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub case: Option<u64>,
    pub secs: Option<u64>,
    pub out: Option<PathBuf>,
    pub replay_dir: Option<PathBuf>,
    pub known: Option<PathBuf>,
    pub shards: Option<u64>,
    pub child: Option<(u64, PathBuf)>,
    pub max_cases: Option<u64>,
    pub label: String,
    pub cmd: String,
    /// Run in this process, without supervision (for Miri)
    pub inline: bool,
}

fn parse(args: &[String]) -> Option<Opts> {
    let mut o = Opts {
        tier: Tier::Quick,
        seed: 1,
        case: None,
        secs: None,
        out: None,
        replay_dir: None,
        known: None,
        shards: None,
        child: None,
        max_cases: None,
        label: String::new(),
        cmd: "mon".into(),
        inline: false,
    };
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1)?;
        match args[i].as_str() {
            "--tier" => o.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--seed" => o.seed = v.parse().ok()?,
            "--case" => o.case = Some(v.parse().ok()?),
            "--secs" => o.secs = Some(v.parse().ok()?),
            "--out" => o.out = Some(v.into()),
            "--replay-dir" => o.replay_dir = Some(v.into()),
            "--known" => o.known = Some(v.into()),
            "--shards" => o.shards = Some(v.parse().ok()?),
            "--max-cases" => o.max_cases = Some(v.parse().ok()?),
            "--label" => o.label = v.clone(),
            "--inline" => o.inline = v == "1",
            "--cmd" => o.cmd = v.clone(),
            "--child" => {
                let (a, b) = v.split_once(':')?;
                o.child = Some((a.parse().ok()?, b.into()));
            }
            _ => return None,
        }
        i += 2;
    }
    Some(o)
}

pub fn main(args: &[String]) -> i32 {
    let Some(name) = args.get(1) else { return usage() };
    if name == "list" {
        for p in props::all() {
            println!("{} {}", p.id, p.level);
        }
        return 0;
    }
    let Some(p) = props::all().into_iter().find(|p| p.id == name) else {
        eprintln!("unknown property {name}");
        return 2;
    };
    let Some(o) = parse(args) else { return usage() };
    if o.inline {
        return inline(&p, &o);
    }
    match &o.child {
        Some((i, dir)) => child(&p, &o, *i, dir.clone()),
        None => parent(&p, &o),
    }
}

// ---------------------------------------------------------------------------------------------
// parent

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Viol {
    case: u64,
    sig: String,
    msg: String,
}

fn scratch_root() -> PathBuf {
    let base = std::env::var_os("MON_SCRATCH").map(PathBuf::from).unwrap_or_else(std::env::temp_dir);
    base
}

/// What a sanitizer wrote for this shard.
fn san_log(d: &Path) -> Option<String> {
    for e in std::fs::read_dir(d).ok()?.flatten() {
        if e.file_name().to_string_lossy().starts_with("san.") {
            let s = String::from_utf8_lossy(&std::fs::read(e.path()).ok()?).into_owned();
            if s.contains("ERROR: ") || s.contains("WARNING: ThreadSanitizer") || s.contains("WARNING: MemorySanitizer") {
                return Some(s);
            }
        }
    }
    None
}

/// Runs cases in this process; the interpreter around it is the monitor.
fn inline(p: &Prop, o: &Opts) -> i32 {
    let mut ctx = Ctx::new(p.id, o.tier, o.seed, scratch_root());
    let (a, b) = match o.case {
        Some(c) => (c, c + 1),
        None => (0, o.max_cases.unwrap_or(4)),
    };
    let mut rc = 0;
    let n = o.shards.unwrap_or(1);
    let t0 = Instant::now();
    for case in (a..b).skip(o.label.parse().unwrap_or(0)).step_by(n as usize) {
        if o.secs.map_or(false, |s| t0.elapsed().as_secs() >= s) {
            break;
        }
        println!("case {case}");
        let mut rng = ctx.begin(case);
        if let Err(f) = props::damage::miri(&mut ctx, case, &mut rng) {
            println!("failed: {}", f.msg);
            rc = 2;
        }
    }
    for (k, v) in &ctx.counters {
        println!("counter\t{k}\t{v}");
    }
    println!("done");
    rc
}

fn parent(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let dir = scratch_root().join(format!("mon-{}-{}", p.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    if let Err(e) = std::fs::create_dir_all(&dir) {
        eprintln!("cannot create {}: {e}", dir.display());
        return 2;
    }
    let n = if o.case.is_some() { 1 } else { o.shards.unwrap_or(p.shards).max(1) };
    let exe = std::env::current_exe().unwrap();
    let san = std::env::var_os("MON_SAN").is_some();
    let mut kids = vec![];
    for i in 0..n {
        let d = dir.join(format!("{i}"));
        std::fs::create_dir_all(&d).unwrap();
        let mut c = std::process::Command::new(&exe);
        c.args(std::env::args().skip(1)).arg("--child").arg(format!("{i}:{}", d.display()));
        c.arg("--shards").arg(format!("{n}"));
        c.stdin(std::process::Stdio::null());
        if san {
            // One log per shard: an abort with a log is a report of the sanitizer.
            let log = d.join("san");
            c.env("ASAN_OPTIONS", format!("abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=64:log_path={}", log.display()));
            c.env("TSAN_OPTIONS", format!("abort_on_error=1:halt_on_error=1:report_signal_unsafe=0:log_path={}", log.display()));
            c.env("MSAN_OPTIONS", format!("abort_on_error=1:halt_on_error=1:log_path={}", log.display()));
        }
        match c.spawn() {
            Ok(k) => kids.push((i, d, k)),
            Err(e) => {
                eprintln!("cannot start shard: {e}");
                return 2;
            }
        }
    }
    let mut viols: Vec<Viol> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut maxima: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for (i, d, mut k) in kids {
        let st = k.wait().unwrap();
        let mut done = false;
        if let Ok(f) = std::fs::File::open(d.join("result")) {
            for l in std::io::BufReader::new(f).lines() {
                let Ok(l) = l else { break };
                let f: Vec<&str> = l.split('\t').collect();
                match f[..] {
                    ["counter", n, v] => *counters.entry(n.into()).or_default() += v.parse::<u64>().unwrap_or(0),
                    ["max", n, v] => {
                        let m = maxima.entry(n.into()).or_default();
                        *m = (*m).max(v.parse().unwrap_or(0));
                    }
                    ["sample", s] => samples.push(unesc(s)),
                    ["viol", case, sig, msg] => viols.push(Viol { case: case.parse().unwrap_or(0), sig: unesc(sig), msg: unesc(msg) }),
                    ["error", m] => errors.push(unesc(m)),
                    ["done"] => done = true,
                    _ => errors.push(format!("unreadable result line of shard {i}")),
                }
            }
        }
        if let Ok(b) = std::fs::read(d.join("distinct")) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        let case = std::fs::read(d.join("journal")).ok().and_then(|b| Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))).unwrap_or(u64::MAX);
        if let Some(log) = san_log(&d) {
            let head = log.lines().find(|l| l.contains("ERROR: ") || l.contains("WARNING: ")).unwrap_or("report").trim();
            viols.push(Viol { case, sig: format!("sanitizer: {}", head.split("==").last().unwrap_or(head)), msg: format!("the sanitizer reports (case {case}):\n{}", log.chars().take(6000).collect::<String>()) });
        } else if san && st.signal() == Some(libc::SIGABRT) {
            // No report of the sanitizer: a Rust abort (failed allocation, panic while panicking).
            *counters.entry("shards ended by an abort without memory error".into()).or_default() += 1;
        } else if let Some(sig) = st.signal() {
            let name = match sig {
                libc::SIGSEGV => "SIGSEGV",
                libc::SIGBUS => "SIGBUS",
                libc::SIGABRT => "SIGABRT",
                libc::SIGILL => "SIGILL",
                libc::SIGFPE => "SIGFPE",
                libc::SIGTRAP => "SIGTRAP",
                _ => "",
            };
            if !name.is_empty() && case != u64::MAX {
                viols.push(Viol { case, sig: format!("signal {name}"), msg: format!("the process died with {name} while the library was reading (case {case})") });
            } else {
                errors.push(format!("shard {i} ended by signal {sig}"));
            }
        } else if !done {
            errors.push(format!("shard {i} ended early with status {:?}", st.code()));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    viols.sort_by_key(|v| v.case);

    // Known findings: lines "known: property=<id> sig=<signature>"
    let mut known: Vec<String> = vec![];
    if let Some(k) = &o.known {
        match std::fs::read_to_string(k) {
            Ok(s) => {
                for l in s.lines() {
                    if let Some(x) = l.strip_prefix(&format!("known: property={} sig=", p.id)) {
                        known.push(x.trim().to_string());
                    }
                }
            }
            Err(e) => errors.push(format!("known findings: {e}")),
        }
    }
    for k in &known {
        println!("KNOWN-FINDING: property={} {k}", p.id);
    }
    viols.retain(|v| v.sig.is_empty() || !known.contains(&v.sig));

    let evals = counters.get("evaluations").copied().unwrap_or(0);
    if o.case.is_none() && viols.is_empty() {
        for (n, min) in p.minima {
            let got = counters.get(*n).copied().unwrap_or(0);
            if got < *min {
                errors.push(format!("too few observations: {n} = {got}, need {min}"));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Some(out) = &o.out {
        samples.truncate(5);
        let mut s = String::new();
        let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
        let _ = write!(s, "{{\n \"property\": {}, \"tier\": \"{tier}\", \"seed\": {}, \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"observed\": {{", json(p.id), o.seed, json(p.level), distinct.len(), json(p.rule), samples.iter().map(|x| json(x)).collect::<Vec<_>>().join(", "));
        let mut first = true;
        for (k, v) in counters.iter().filter(|(k, _)| *k != "evaluations") {
            let _ = write!(s, "{}{}: {v}", if first { "" } else { ", " }, json(k));
            first = false;
        }
        let _ = write!(s, "}},\n  \"maxima\": {{{}}},\n  \"shards\": {n}, \"build\": {}\n }},\n", maxima.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", "), json(&o.label));
        let _ = write!(s, " \"assumptions\": [{}],\n \"wall_s\": {wall:.2},\n \"violations\": {}\n}}\n", p.assumptions.iter().map(|a| json(a)).collect::<Vec<_>>().join(", "), viols.len());
        if let Err(e) = std::fs::write(out, s) {
            errors.push(format!("evidence: {e}"));
        }
    }
    println!("{}: {} executions judged, {} distinct non-trivial, {:.1} s", p.id, evals, distinct.len(), wall);
    if let Some(v) = viols.first() {
        let replay = match &o.replay_dir {
            Some(d) => {
                let _ = std::fs::create_dir_all(d);
                let f = d.join(format!("{}-{}-{}.txt", p.id, o.seed, v.case));
                let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
                let mut t = format!(
                    "property {}\nseed {} case {} tier {tier} build {}\nreplay: {} {} --seed {} --case {} --tier {tier}\n\n{}\n",
                    p.id, o.seed, v.case, o.label, o.cmd, p.id, o.seed, v.case, v.msg
                );
                for x in viols.iter().skip(1).take(20) {
                    let _ = write!(t, "\nalso case {}: {}\n", x.case, x.msg);
                }
                let _ = std::fs::write(&f, t);
                f.display().to_string()
            }
            None => format!("seed={},case={}", o.seed, v.case),
        };
        println!("VIOLATION property={} replay={replay}", p.id);
        println!("  case {}: {}", v.case, v.msg.chars().take(1500).collect::<String>());
        return 1;
    }
    if !errors.is_empty() {
        errors.truncate(10);
        for e in &errors {
            println!("INCONCLUSIVE: {e}");
        }
        return 2;
    }
    0
}

// ---------------------------------------------------------------------------------------------
// shard

fn clock(id: libc::clockid_t) -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(id, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

pub fn cpu() -> f64 {
    clock(libc::CLOCK_PROCESS_CPUTIME_ID)
}

fn all_asleep() -> bool {
    let Ok(d) = std::fs::read_dir("/proc/self/task") else { return false };
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
    for e in d.flatten() {
        if e.file_name().to_string_lossy().parse::<u64>().ok() == Some(me) {
            continue;
        }
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let state = s.rsplit(") ").next().and_then(|x| x.chars().next());
        if state != Some('S') {
            return false;
        }
    }
    true
}

fn put(dir: &Path, line: &str) {
    if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(dir.join("result")) {
        let _ = f.write_all(line.as_bytes());
    }
}

fn child(p: &Prop, o: &Opts, idx: u64, dir: PathBuf) -> i32 {
    let n = o.shards.unwrap_or(1);
    crate::alloc::CAP.store(p.mem_cap, std::sync::atomic::Ordering::SeqCst);
    let journal = std::fs::File::create(dir.join("journal")).unwrap();
    journal.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    let hook_dir = dir.clone();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if i.payload().is::<crate::src::Budget>() {
            "BUDGET".to_string()
        } else if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if msg.starts_with("unsafe precondition") {
            // Found by the checks of the standard library: not a panic, the process aborts next.
            let _ = std::fs::write(hook_dir.join("san.ub"), format!("ERROR: {msg}\nat {loc}\n{}\n", std::backtrace::Backtrace::force_capture()));
        }
        if let Ok(mut v) = PANICS.lock() {
            if v.len() < 100 {
                v.push((loc, msg));
            }
        }
    }));
    {
        let dir = dir.clone();
        std::thread::spawn(move || {
            let mut case = u64::MAX;
            let mut start_cpu = 0.0;
            let mut last_cpu = 0.0;
            let mut idle = Instant::now();
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let c = CASE.load(SeqCst);
                // Looking at many threads takes time, too.
                let now = cpu() - clock(libc::CLOCK_THREAD_CPUTIME_ID);
                if c != case {
                    case = c;
                    start_cpu = now;
                    last_cpu = now;
                    idle = Instant::now();
                    continue;
                }
                if c == u64::MAX {
                    idle = Instant::now();
                    continue;
                }
                let mut msg = None;
                if now - start_cpu > CASE_CPU_S as f64 {
                    msg = Some(format!("no result after {CASE_CPU_S} s of CPU time for one small case (does not terminate?)"));
                }
                if now - last_cpu > 0.05 || !all_asleep() {
                    last_cpu = now;
                    idle = Instant::now();
                } else if idle.elapsed().as_secs() > DEADLOCK_S {
                    msg = Some(format!("no progress for {DEADLOCK_S} s with all threads asleep (deadlock)"));
                }
                if let Some(m) = msg {
                    put(&dir, &format!("viol\t{case}\tno progress\t{}\ndone\n", esc(&m)));
                    unsafe { libc::_exit(3) };
                }
            }
        });
    }
    let mut ctx = Ctx::new(p.id, o.tier, o.seed, dir.clone());
    ctx.verbose = o.case.is_some();
    let digest = std::env::var_os("MON_DIGEST").map(PathBuf::from);
    ctx.digests = digest.is_some().then(Vec::new);
    let secs = o.secs.unwrap_or(if o.tier == Tier::Quick { p.quick_s } else { p.thorough_s });
    let t0 = Instant::now();
    let directed = (p.directed)(o.tier);
    let mut fails: Vec<(u64, Fail)> = vec![];
    let mut case = idx;
    loop {
        if let Some(c) = o.case {
            case = c;
        } else if case >= directed && (t0.elapsed().as_secs() >= secs || o.max_cases.map_or(false, |m| case >= m + directed)) {
            break;
        }
        let mut rng = ctx.begin(case);
        journal.write_at(&case.to_le_bytes(), 0).unwrap();
        CASE.store(case, SeqCst);
        PANICS.lock().unwrap().clear();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut ctx, case, &mut rng)));
        CASE.store(u64::MAX, SeqCst);
        let fail = match r {
            Ok(Ok(())) => None,
            Ok(Err(f)) => Some(f),
            Err(_) => {
                let ps = PANICS.lock().unwrap().clone();
                let (loc, msg) = ps.first().cloned().unwrap_or_default();
                if msg == "BUDGET" {
                    Some(Fail { sig: "budget".into(), msg: "the library keeps reading long after the source began to fail: unbounded work".into(), harness: false })
                } else {
                    let harness = loc.starts_with("src/") || loc.is_empty();
                    Some(Fail { sig: format!("panic at {loc}"), msg: format!("panic at {loc}: {msg}"), harness })
                }
            }
        };
        if let Some(f) = fail {
            if o.case.is_some() {
                eprintln!("case {case}: {}{}", if f.harness { "HARNESS: " } else { "" }, f.msg);
            }
            let stop = f.harness;
            fails.push((case, f));
            if stop || fails.len() >= 3 {
                break;
            }
        }
        if o.case.is_some() {
            break;
        }
        case += n;
    }
    journal.write_at(&u64::MAX.to_le_bytes(), 0).unwrap();
    let mut s = String::new();
    for (k, v) in &ctx.counters {
        let _ = writeln!(s, "counter\t{k}\t{v}");
    }
    for (k, v) in &ctx.maxima {
        let _ = writeln!(s, "max\t{k}\t{v}");
    }
    for x in &ctx.samples {
        let _ = writeln!(s, "sample\t{}", esc(x));
    }
    for (c, f) in &fails {
        if f.harness {
            let _ = writeln!(s, "error\t{}", esc(&format!("case {c}: {}", f.msg)));
        } else {
            let _ = writeln!(s, "viol\t{c}\t{}\t{}", esc(&f.sig), esc(&f.msg));
        }
    }
    s.push_str("done\n");
    if let (Some(p), Some(d)) = (digest, &ctx.digests) {
        let mut t = String::new();
        for (c, x) in d {
            let _ = writeln!(t, "{c}\t{}", esc(x));
        }
        if std::fs::write(format!("{}.{idx}", p.display()), t).is_err() {
            s = "error\tcannot write digests\ndone\n".into();
        }
    }
    let mut b = Vec::with_capacity(ctx.distinct.len() * 8);
    for d in &ctx.distinct {
        b.extend_from_slice(&d.to_le_bytes());
    }
    let _ = std::fs::write(dir.join("distinct"), b);
    put(&dir, &s);
    // Do not run destructors of global pools.
    unsafe { libc::_exit(0) }
}
