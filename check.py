#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: builds the monitors against /repo's working tree and runs one check.

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict.
check.py build [variant...]: only builds (all variants by default).
check.py replay <property> --seed S --case N [--tier T] [--build V]: one case again, with its report.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "replay")
KNOWN = os.path.join(VERIF, "known_findings.txt")
HOST = "x86_64-unknown-linux-gnu"

# name: (cargo arguments, environment, target directory, directory of the programs below it)
VARIANTS = {
    "release": (["build", "--release"], {}, "target", "release"),
    "plain": (["build", "--profile", "plain"], {}, "target", "plain"),
    "zlib": (["build", "--release", "--no-default-features", "--features", "zlib"], {}, "target-zlib", "release"),
    "zlib-ng": (["build", "--release", "--no-default-features", "--features", "zlib-ng"], {}, "target-zlib-ng", "release"),
    "asan": (["+nightly", "build", "--release", "--target", HOST], {"RUSTFLAGS": "-Zsanitizer=address -Zub-checks=yes"}, "target-asan", HOST + "/release"),
    "tsan": (["+nightly", "build", "--release", "--target", HOST, "-Zbuild-std"], {"RUSTFLAGS": "-Zsanitizer=thread -Zub-checks=yes"}, "target-tsan", HOST + "/release"),
    "msan": (["+nightly", "build", "--release", "--target", HOST, "-Zbuild-std"], {"RUSTFLAGS": "-Zsanitizer=memory -Zsanitizer-memory-track-origins -Zub-checks=yes"}, "target-msan", HOST + "/release"),
    "miri": (["+nightly", "miri", "run"], {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-tree-borrows -Zmiri-ignore-leaks"}, "target-miri", ""),
}


class NoVerdict(Exception):
    pass


def cargo(variant, extra, fresh=True):
    args, env, target, _ = VARIANTS[variant]
    target = os.path.join(HARNESS, target)
    if fresh:
        # The sources may have changed without a newer time stamp
        for root, dirs, _ in os.walk(target):
            for d in list(dirs):
                # The layouts of stable and nightly cargo
                if (os.path.basename(root) == ".fingerprint" and d.startswith("osmpbf-")) or (os.path.basename(root) == "build" and d == "osmpbf"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                    dirs.remove(d)
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **env)
    e.pop("CARGO_TARGET_DIR", None)
    cmd = ["cargo"] + args + ["--offline", "--target-dir", target] + extra
    return subprocess.Popen(cmd, cwd=HARNESS, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def wait_build(variant, p):
    out = p.communicate()[0]
    if p.returncode != 0:
        print("\n".join(out.splitlines()[-40:]))
        raise NoVerdict("the build of variant %s failed" % variant)


def build(variants, bins=("mon",)):
    """Variants in the same target directory lock each other; the others build side by side."""
    t = time.time()
    ps = []
    for v in variants:
        if v == "miri":
            ps.append((v, cargo(v, ["--bin", "mon", "--", "list"])))
        else:
            ps.append((v, cargo(v, [x for b in bins for x in ("--bin", b)])))
    for v, p in ps:
        wait_build(v, p)
    print("built %s in %.0f s" % (", ".join(variants), time.time() - t), flush=True)


def exe(variant):
    _, _, target, sub = VARIANTS[variant]
    return os.path.join(HARNESS, target, sub, "mon")


def scratch():
    for d in ("/dev/shm", tempfile.gettempdir()):
        try:
            s = os.statvfs(d)
            if s.f_bavail * s.f_frsize > 1 << 30 and os.access(d, os.W_OK):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="osmpbf-check-", dir=scratch())
        self.rc = 0
        self.parts = []
        self.t0 = time.time()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def mon(self, variant, secs=None, env=None, extra=(), label=None):
        """Runs the monitor of this build; remembers its evidence."""
        out = os.path.join(self.tmp, "ev-%d.json" % len(self.parts))
        cmd = [exe(variant), self.prop, "--tier", self.tier, "--seed", str(self.seed), "--out", out,
               "--replay-dir", REPLAY, "--known", KNOWN, "--label", label or variant, "--cmd", "python3 check.py replay"]
        if secs is not None:
            cmd += ["--secs", str(secs)]
        cmd += list(extra)
        e = dict(os.environ, MON_SCRATCH=self.tmp, RUST_BACKTRACE="0", **(env or {}))
        e.pop("RAYON_NUM_THREADS", None)
        p = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, cwd=VERIF)
        try:
            ev = json.load(open(out))
        except (OSError, ValueError):
            ev = None
        self.parts.append((label or variant, ev))
        self.merge(p.returncode)
        return p.returncode

    def merge(self, rc):
        # A violation counts, whatever else happened
        if rc == 1:
            self.rc = 1
        elif rc != 0 and self.rc == 0:
            self.rc = 2

    def violation(self, name, text):
        os.makedirs(REPLAY, exist_ok=True)
        f = os.path.join(REPLAY, "%s-%d-%s.txt" % (self.prop, self.seed, name))
        open(f, "w").write(text)
        print("VIOLATION property=%s replay=%s" % (self.prop, f))
        print("  " + text[:1500].replace("\n", "\n  "), flush=True)
        self.merge(1)

    def evidence(self, more=None):
        """The evidence of the first build, with what the others observed."""
        evs = [(l, e) for l, e in self.parts if e]
        if not evs:
            raise NoVerdict("no evidence")
        ev = evs[0][1]
        c = ev["coverage"]
        for l, e in evs[1:]:
            for k in ("evaluations", "distinct_nontrivial"):
                c.setdefault("other builds", {}).setdefault(l, {})[k] = e["coverage"][k]
            c["other builds"][l]["observed"] = e["coverage"]["observed"]
            ev["violations"] += e["violations"]
        c.update(more or {})
        if self.rc == 1:
            ev["violations"] = max(ev["violations"], 1)
        ev["wall_s"] = round(time.time() - self.t0, 2)
        os.makedirs(EVIDENCE, exist_ok=True)
        s = json.dumps(ev, indent=1)
        if len(s) > 60000:
            c.pop("other builds", None)
            s = json.dumps(ev, indent=1)
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as f:
            f.write(s + "\n")


def run_default(c):
    build(["release"], ("mon", "ex_count", "ex_indexed") if c.prop == "C32" else ("mon",))
    c.mon("release")
    c.evidence()


def run_c02(c):
    vs = ["release", "zlib", "zlib-ng"]
    build(vs)
    secs = 8 if c.tier == "quick" else 200
    dig = {}
    for v in vs:
        d = os.path.join(c.tmp, "digest-" + v)
        c.mon(v, secs, {"MON_DIGEST": d})
        dig[v] = {}
        for f in glob.glob(glob.escape(d) + ".*"):
            for l in open(f, errors="replace"):
                case, x = l.rstrip("\n").split("\t", 1)
                dig[v].setdefault(int(case), []).append(x)
    cases = set.intersection(*(set(x) for x in dig.values()))
    n = 0
    for case in sorted(cases):
        a = dig["release"][case]
        for v in vs[1:]:
            b = dig[v][case]
            n += len(a)
            if a != b:
                diff = [(x, y) for x, y in zip(a, b) if x != y][:5] or [("%d outcomes" % len(a), "%d outcomes" % len(b))]
                c.violation("%d-backends" % case, "seed %d case %d: the backends rust-zlib and %s disagree:\n%s\n" % (
                    c.seed, case, v, "\n".join("%s / %s" % d for d in diff)))
                c.evidence({"cases compared between backends": len(cases)})
                return
    c.evidence({"cases compared between backends": len(cases), "outcomes compared between backends": n})
    if c.rc == 0 and n < 1000:
        raise NoVerdict("only %d outcomes compared between backends" % n)


def run_c23(c):
    build(["release", "plain"])
    secs = 10 if c.tier == "quick" else 250
    c.mon("release", secs, label="overflow checks and debug assertions")
    c.mon("plain", secs, label="without overflow checks")
    c.evidence()


def run_c28(c):
    quick = c.tier == "quick"
    build(["asan", "tsan", "msan", "miri"])
    for v in ("asan", "tsan", "msan"):
        c.mon(v, 12 if quick else 200, {"MON_SAN": v}, label=v)
    # Miri: independent processes, each with its own cases
    secs, n = (20, 8) if quick else (300, 8)
    ps = []
    for i in range(n):
        e = dict(MON_SCRATCH=c.tmp)
        os.environ.update(e)
        f = open(os.path.join(c.tmp, "miri-%d" % i), "w+")
        p = subprocess.Popen(["cargo", "+nightly", "miri", "run", "--offline", "--target-dir", os.path.join(HARNESS, "target-miri"), "--bin", "mon", "--",
                              "C28", "--inline", "1", "--seed", str(c.seed), "--shards", str(n), "--label", str(i), "--max-cases", "1000000", "--secs", str(secs)],
                             cwd=HARNESS, env=dict(os.environ, CARGO_NET_OFFLINE="true", **VARIANTS["miri"][1]), stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT)
        ps.append((i, p, f))
    total = {}
    bad = None
    for i, p, f in ps:
        try:
            p.wait(secs + 240)
        except subprocess.TimeoutExpired:
            p.kill()
            bad = bad or "Miri process %d did not finish" % i
            continue
        f.seek(0)
        s = f.read()
        for l in s.splitlines():
            m = re.match(r"counter\t([^\t]*)\t(\d+)$", l)
            if m:
                total[m.group(1)] = total.get(m.group(1), 0) + int(m.group(2))
        ub = re.search(r"error: Undefined Behavior:.*|error: .*[Dd]ata race.*", s) or re.search(r"unsafe precondition\(s\) violated.*", s)
        if ub:
            case = re.findall(r"^case (\d+)$", s, re.M)
            c.violation("miri-%d" % i, "Miri, seed %d case %s: %s\n\n%s\n" % (c.seed, case[-1] if case else "?", ub.group(0), s[ub.start():][:8000]))
        elif p.returncode == 2 and "\ndone" in s:
            # A difference of results is the business of other checks
            total["functional differences"] = total.get("functional differences", 0) + 1
        elif "\ndone" not in s and "panicked at" in s:
            total["ended by a panic"] = total.get("ended by a panic", 0) + 1
        elif "\ndone" not in s:
            print("\n".join(s.splitlines()[-15:]))
            bad = bad or "Miri process %d ended with status %s" % (i, p.returncode)
        f.close()
    c.evidence({"executions under Miri": total})
    print("C28: %d executions under Miri" % total.get("evaluations", 0))
    if c.rc == 0 and bad:
        raise NoVerdict(bad)


RUNS = {"C02": run_c02, "C23": run_c23, "C28": run_c28}


def main(a):
    if a and a[0] == "build":
        vs = a[1:] or list(VARIANTS)
        # Not more than a few at once
        for i in range(0, len(vs), 3):
            build(vs[i:i + 3], ("mon", "ex_count", "ex_indexed"))
        return 0
    if a and a[0] == "replay":
        o = {a[i]: a[i + 1] for i in range(2, len(a) - 1, 2)}
        v = o.get("--build", "release")
        v = v if v in VARIANTS else "release"
        build([v], ("mon", "ex_count", "ex_indexed"))
        cmd = [exe(v), a[1], "--seed", o.get("--seed", "1"), "--case", o.get("--case", "0"), "--tier", o.get("--tier", "quick"), "--replay-dir", REPLAY]
        return subprocess.run(cmd, env=dict(os.environ, MON_SCRATCH=scratch(), **({"MON_SAN": v} if v in ("asan", "tsan", "msan") else {}))).returncode
    if not a or not re.fullmatch(r"C\d\d", a[0]):
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = abs(int(os.environ.get("VERIF_SEED", "1"))) % (1 << 62)
    except ValueError:
        seed = 1
    c = Check(a[0], "thorough" if tier == "thorough" else "quick", seed)
    try:
        RUNS.get(a[0], run_default)(c)
        return c.rc
    finally:
        c.close()


if __name__ == "__main__":
    try:
        sys.exit(main(sys.argv[1:]))
    except NoVerdict as e:
        print("INCONCLUSIVE: %s" % e)
        sys.exit(2)
