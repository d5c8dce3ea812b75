#!/usr/bin/env python3
"""Planted bugs: seed.py validate ID... | detect [-t CHECK] ID... | list | quiet PATCH CHECK...

validate: in a scratch copy of /repo, the patch applies, builds and passes the tests, and the demo
fails with it and passes without it. detect: runs the check of its property (or another
one) against the patched code. quiet: runs checks against a patch that changes no behaviour."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seed"

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def validate(i):
    d = "%s/seeded/%s" % (V, i)
    r = "%s/repo" % W
    base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    f, minus = "", 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = sh("git -C /repo show %s:%s" % (base, l[6:].strip())).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---"):
            minus += 1
            if l[1:].rstrip("\n") not in f:
                return "changes a line that is not original: " + l
    if not minus:
        return "changes no original line"
    shutil.rmtree(r, ignore_errors=True)
    os.makedirs(W, exist_ok=True)
    sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/" % (r, r))
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/target", CARGO_NET_OFFLINE="true", OSMPBF_BENCH_FILE="/repo/tests/test.osm.pbf", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    x = sh("bash %s/demo.sh" % d, cwd=r)
    if x.returncode != 0:
        return "demo fails without the patch:\n" + x.stdout[-3000:]
    x = sh("git apply %s/patch.diff" % d, cwd=r)
    if x.returncode != 0:
        return "does not apply: " + x.stdout
    sh("rm -rf %s/target/debug/.fingerprint/osmpbf-*" % W)
    x = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=r, env=env)
    if x.returncode != 0:
        return "tests fail:\n" + x.stdout[-3000:]
    x = sh("bash %s/demo.sh" % d, cwd=r)
    if x.returncode == 0:
        return "demo passes with the patch"
    if "could not compile" in x.stdout:
        return "demo does not compile:\n" + x.stdout[-3000:]
    return "ok: " + " ".join(l for l in x.stdout.splitlines() if "left" in l or "right" in l or "panicked" in l)[:200]

def detect(i, check=None, tier="quick", seed=1, patch=None):
    """In a mount namespace of its own, with a patched copy in place of /repo and a copy of /verif:
    neither is touched, so this can run next to other work."""
    d = "%s/seeded/%s" % (V, i)
    p = check or json.load(open(d + "/meta.json"))["property"]
    r, v = (W + "/drepo", W + "/dverif") if not patch else (W + "/qrepo", W + "/qverif")
    shutil.rmtree(r, ignore_errors=True)
    os.makedirs(v, exist_ok=True)
    sh("git clone -q /repo %s && cp /repo/Cargo.lock %s/; rsync -a --delete --exclude=.git /verif/ %s/ || cp -a /verif/. %s/" % (r, r, v, v))
    x = sh("git -C %s apply %s" % (r, patch or d + "/patch.diff"))
    if x.returncode:
        return "does not apply"
    x = sh("unshare -m bash -c 'mount --bind %s /repo && mount --bind %s /verif && cd /verif && VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s %s'" % (r, v, seed, tier, p, tier))
    return "%s rc=%d %s" % (p, x.returncode, " | ".join(l for l in x.stdout.splitlines() if "VIOL" in l or "case" in l or "INCON" in l)[:260])

a = sys.argv[1:]
if a[0] == "list":
    for i in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        print("| %s | %s | %s |" % (i, m["property"], m["needs"]))
elif a[0] == "quiet":
    for c in a[2:] or ["C%02d" % n for n in range(1, 37)]:
        print(a[1], detect("", c, patch=os.path.abspath(a[1])), flush=True)
else:
    check = None
    if len(a) > 2 and a[1] == "-t":
        check = a[2]
        a = a[:1] + a[3:]
    for i in a[1:] or sorted(os.listdir(V + "/seeded")):
        print(i, validate(i) if a[0] == "validate" else detect(i, check), flush=True)
