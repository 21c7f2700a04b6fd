#!/usr/bin/env python3
"""Development aid: writes /verif/seeded/<id>/ from the descriptions in tools/bugs/*.py.

Each description has id, prop, needs, breaks, edits [(file, old, new)], src (files the
demonstration links), inc, flags, libs and demo (C++ with a main that returns 0 if the
property holds). The patch is made with git diff against /repo's HEAD."""
import glob, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PRE = r'''#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
typedef std::vector<uint8_t> Bytes;
static uint64_t rs = 88172645463325252ull;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static Bytes bytes(size_t n) { Bytes b(n + 16); for (auto &x : b) x = rnd() >> 11; b.resize(n); return b; }
static int bad(const char *m) { printf("property broken: %s\n", m); return 1; }
'''
SH = '''#!/bin/bash
set -u
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
%s || { echo "the demonstration does not build"; exit 2; }
(cd "$T" && timeout 250 %s"$T/demo")
'''


def load():
    bugs = []
    for f in sorted(glob.glob(HERE + "/bugs/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns["BUGS"]
    return bugs


def main():
    only = set(sys.argv[1:])
    tree = tempfile.mkdtemp(prefix="/tmp/seedwt.")
    subprocess.check_call(["git", "clone", "-q", REPO, tree + "/r"])
    r = tree + "/r"
    for b in load():
        if only and b["id"] not in only:
            continue
        for f, old, new in b["edits"]:
            p = os.path.join(r, f)
            t = open(p, newline="").read()
            if t.count(old) != 1:
                print(b["id"], f, "old text occurs", t.count(old), "times")
                break
            open(p, "w", newline="").write(t.replace(old, new))
        else:
            d = os.environ.get("SEEDED_DIR", "/verif/seeded") + "/" + b["id"]
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(["git", "-C", r, "diff"])
            open(d + "/patch.diff", "wb").write(diff)
            open(d + "/demo.cpp", "w").write(PRE + b["demo"])
            cxx = b.get("cxx", "g++ -g -O0 -w")
            cmd = " ".join([cxx, b.get("flags", "")] + ["-I" + i for i in b.get("inc", [])] + ['-o "$T/demo" "$H/demo.cpp"'] + b["src"] + [b.get("libs", "")])
            open(d + "/demo.sh", "w").write(SH % (cmd, b.get("run", "")))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
    subprocess.call(["rm", "-rf", tree])


main()
