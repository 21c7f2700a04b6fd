#!/usr/bin/env python3
"""Development aid: runs every planted change against the check of its property and rewrites that table in DESIGN.md.

table.py [LOG]   with LOG, uses the lines of an earlier run instead"""
import collections, glob, json, os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lines = []
if len(sys.argv) > 1:
    lines = open(sys.argv[1]).read().splitlines()
else:
    for d in sorted(glob.glob("/verif/seeded/*")):
        p = json.load(open(d + "/meta.json"))["property"]
        r = subprocess.run(["bash", HERE + "/tools/trypatch.sh", d + "/patch.diff", p], stdout=subprocess.PIPE, text=True, env=dict(os.environ, VERIF_DIR=HERE)).stdout
        lines += [r.replace(d + "/patch.diff", os.path.basename(d)).strip()]
        print(lines[-1][:200], flush=True)
caught, missed = collections.defaultdict(list), collections.defaultdict(list)
for l in lines:
    m = re.match(r"(\S+) (C\d+) rc=(\d)(?: C\d+: ?([\w-]+):)?", l)
    if m:
        (caught if m.group(3) == "1" else missed)[m.group(2)].append((m.group(1), m.group(4) or "caught"))
n, k = sum(map(len, caught.values())), sum(map(len, missed.values()))
s = "## Planted changes and the checks that catch them\n\n%d of the %d changes in `seeded/` are caught by the check of their property, on the quick tier\nwith VERIF_SEED=1%s. In brackets: the class of the violation reported.\n\n| check | changes |\n|---|---|\n" % (n, n + k, "" if not k else "; missed: " + ", ".join(a for p in missed for a, _ in missed[p]))
for p in sorted(caught):
    s += "| %s | %s |\n" % (p, ", ".join("%s (%s)" % (a[4:], c) for a, c in sorted(caught[p])))
f = HERE + "/DESIGN.md"
t = open(f).read()
t = re.sub(r"## Planted changes and the checks.*?(?=\n## |\Z)", "", t, flags=re.S).rstrip() + "\n\n" + s
open(f, "w").write(t)
