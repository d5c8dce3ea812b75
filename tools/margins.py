#!/usr/bin/env python3
"""How far the observed events are above the minima (reads the sources' minima and the last evidence)."""
import json, re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(V + "/harness/src/props/*.rs"))
for m in re.finditer(r'id: "(C\d\d)".*?minima: &\[(.*?)\],', src, re.S):
    e = json.load(open(V + "/evidence/%s.json" % m.group(1)))
    c = e["coverage"]
    for n, k in re.findall(r'\("([^"]*)", ([\d_]+)\)', m.group(2)):
        k = int(k.replace("_", ""))
        g = c["evaluations"] if n == "evaluations" else c["observed"].get(n, 0)
        print("%s %-45s %9d / %7d = %6.1f%s" % (m.group(1), n, g, k, g / k, "   <<<" if g < 6 * k else ""))
