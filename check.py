#!/usr/bin/env python3
"""check.py PROP            run the check of one property (VERIF_SEED, VERIF_TIER)
check.py replay FILE [-v]  run one replay file again and say what happens
check.py build             build everything the checks use"""
import collections, json, os, re, subprocess, sys, time
import build as B
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
W = max(2, min(8, os.cpu_count() or 4))
X = lambda *kinds: [n for n in B.X86_LIBS if n.split(".")[0] in kinds]
R = lambda *kinds: [n for n in B.ARM_LIBS if n.split(".")[0] in kinds]
STREAMS = ("hc128", "rabbit", "sosemanuk", "chacha", "ctr")
PLAIN = ("cfb", "ctr", "aegis", "chacha", "hc128", "rabbit", "sosemanuk", "serpent", "hmac", "sha", "md5", "des", "hex")
ALL = PLAIN + ("jl", "lhe", "mulhe")


class Leg:
    """One batch of simulated runs: an executable, the real components in it and how many runs."""
    def __init__(self, comps, quick, thorough, arch=B.X86, flavour="coarse", extra=()):
        self.comps, self.count, self.arch, self.flavour, self.extra = list(comps), {"quick": quick, "thorough": thorough}, arch, flavour, list(extra)
        self.name = "aarch64" if arch == B.ARM else "x86-64" + {"fine": " (fine-grained seams)", "opt": " (-O3)"}.get(flavour, "")

        self.tag = "aarch64" if arch == B.ARM else "x86-64-opt" if flavour == "opt" else ""

    def jobs(self):
        return [(self.arch, self.flavour, self.comps + self.extra)]

    def cmd(self):
        d = B.outdir(self.arch, "coarse") + "/sim"
        return (["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu", d] if self.arch == B.ARM else [d])

    def env(self, known=""):
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "SIM_LIBDIR": B.outdir(self.arch, self.flavour), "SIM_LIBS": ",".join(self.comps + self.extra), "SIM_KNOWN": known}
        return e


PROPS = {
    "C01": [Leg(X("cfb"), 40000, 1200000), Leg(R("cfb"), 800, 16000, B.ARM)],
    "C02": [Leg(X("serpent", *STREAMS), 40000, 1100000, extra=["chacha.fast"]), Leg(R("ctr"), 600, 12000, B.ARM)],
    "C03": [Leg(X("cfb", *STREAMS), 5000, 120000, extra=["ctr.plain.fast", "ctr.x86fb.fast", "ctr.x86hw.fast"])],
    "C04": [Leg(X("hmac"), 26000, 700000, extra=["hmac.fast"])],
    "C05": [Leg(X("aegis"), 40000, 1200000, extra=["aegis.plain.fast", "aegis.x86fb.fast", "aegis.x86hw.fast"]), Leg(R("aegis"), 700, 14000, B.ARM)],
    "C06": [Leg(X(*ALL), 18000, 500000, flavour="fine")],
    "C07": [Leg(X(*ALL), 26000, 800000, flavour="fine")],
    "C08": [Leg(X(*PLAIN), 40000, 1200000)],
    "C09": [Leg(X(*PLAIN), 40000, 1200000, extra=["aegis.o0.fast"]), Leg(R("cfb", "ctr", "aegis"), 700, 14000, B.ARM)],
    "C10": [Leg(X("md5"), 50000, 1200000, extra=["md5.fast"])],
    "C11": [Leg(X("sha", "hmac"), 30000, 800000, extra=["sha.fast"])],
    "C12": [Leg(X("jl", "lhe", "mulhe"), 14000, 350000)],
    "C13": [Leg(X("lhe", "mulhe"), 13000, 350000)],
    "C14": [Leg(X("lhe", "mulhe"), 18000, 450000, extra=["lhe.alt"])],
    "C15": [Leg(X(*ALL), 34000, 900000)],
    "C16": [Leg(X("jl", "lhe", "mulhe"), 12000, 300000)],
    "C17": [Leg(X("cfb", "ctr", "aegis"), 26000, 800000), Leg(R("cfb", "ctr", "aegis"), 700, 14000, B.ARM)],
    "C18": [Leg(X("des"), 9000, 250000)],
    "C19": [Leg(X(*ALL), 40000, 1000000)],
    "C20": [Leg(X("hex"), 30000, 700000, extra=["hex.o0.fast"])],
    "C21": [Leg(X("hmac", "aegis"), 20000, 600000), Leg(R("aegis"), 500, 10000, B.ARM)],
    "C22": [Leg(X("cfb", "aegis", "hmac", *STREAMS), 20000, 600000)],
}
for _p, _legs in PROPS.items():
    # the same components as an optimising build makes them
    if _legs[0].flavour == "coarse":
        _l = _legs[0]
        _legs.append(Leg(_l.comps, _l.count["quick"] // 8, _l.count["thorough"] // 8, flavour="opt"))
RULE = ("A case is one simulated run: a plan (configuration, operations, channel and disk fates, crash and preemption points, memory residue) drawn from one seed. "
        "It is non-trivial if at least one fault of any kind (including memory residue other than zero, preemption, restart, tampering) actually took effect in it. "
        "Two runs count as distinct if the running hash of what the run went through (component, operations, fates, outcomes) differs; the count is over non-trivial runs.")


class Error(Exception):
    pass


def known_classes(prop):
    """class -> text, from known_findings.txt"""
    out = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) class=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def run_leg(prop, leg, li, tier, seed, known, tmp, rdir, limit, split, count, tag):
    """split: list of (start, stride, count). Returns (list of json results, {idx: (hash, sig, nt)})."""
    procs = []
    for w, (a, s, n) in enumerate(split):
        base = "%s/%s.%d.%s.%d" % (tmp, prop, li, tag, w)
        cmd = leg.cmd() + ["run", prop, "1" if tier == "thorough" else "0", str(seed), str(a), str(s), str(n), str(limit), base, rdir]
        procs.append((base, subprocess.Popen(cmd, env=leg.env(",".join(known)), stdout=subprocess.DEVNULL, stderr=open(base + ".err", "w"))))
    res, runs = [], {}
    for base, p in procs:
        try:
            rc = p.wait(timeout=limit + 240)
        except subprocess.TimeoutExpired:
            for _, q in procs:
                q.kill()
            raise Error("a worker did not finish")
        if rc not in (0, 1):
            raise Error("a worker ended with status %s: %s" % (rc, open(base + ".err").read()[-1500:]))
        res.append(json.load(open(base + ".json")))
        for line in open(base + ".runs"):
            f = line.split()
            runs[int(f[0])] = (f[1], f[2], f[3] == "1")
    return res, runs


def replay_once(path, leg, verbose=False):
    p = subprocess.run(leg.cmd() + ["replay", path] + (["-v"] if verbose else []), env=leg.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if verbose:
        sys.stdout.write(p.stderr)
    m = re.search(r"^(FAILS class=(\S+)|HOLDS) hash=(\w+) sig=(\w+)", p.stdout, re.M)
    if not m:
        return None
    return dict(cls=m.group(2), hash=m.group(3), sig=m.group(4), line=p.stdout.strip())


def replay_file(path, verbose=False):
    t = open(path).read()
    prop = re.search(r"^prop (\S+)", t, re.M).group(1)
    legs = PROPS[prop]
    if "# engine: both" in t:
        a, b = replay_once(path, legs[0]), replay_once(path, legs[1])
        if not a or not b:
            return None
        if a["sig"] != b["sig"] or a["cls"] != b["cls"]:
            return dict(cls="builds-differ", hash=a["hash"] + b["hash"], line="FAILS class=builds-differ: x86-64 %s, aarch64 %s" % (a["line"], b["line"]))
        return dict(cls=None, hash=a["hash"] + b["hash"], line="HOLDS")
    leg = next(l for l in reversed(legs) if "# engine: %s" % l.tag in t or not l.tag)
    return replay_once(path, leg, verbose)


def confirm(path, cls):
    """The gate: two fresh processes must fail in the same way with the same event hash."""
    a, b = replay_file(path), replay_file(path)
    return a is not None and b is not None and a["cls"] == b["cls"] == cls and a["hash"] == b["hash"]


def check(prop):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    legs = PROPS[prop]
    rdir = os.path.join(EVID, "replays")
    tmp = os.path.join(B.BUILD, "tmp", "%s.%d" % (prop, os.getpid()))
    for d in (EVID, rdir, tmp):
        os.makedirs(d, exist_ok=True)
    print("%s: VERIF_SEED=%d tier=%s workers=%d" % (prop, seed, tier, W), flush=True)
    B.build([j for l in legs for j in l.jobs()])
    tb = time.time()
    known = known_classes(prop)
    found, cov, nviol, allsig = [], [], 0, set()
    evals, samples, faults, simt, ticks, calls, checks, rr, rr_ok, cut = 0, [], collections.Counter(), 0, 0, 0, 0, 0, 0, False
    seen_known, unconfirmed, legruns = {}, [], []
    for li, leg in enumerate(legs):
        n = leg.count[tier]
        limit = 150 if tier == "quick" else 600 // len(legs)
        lseed = seed if (prop == "C17" or li == 0) else seed + 1000003
        t1 = time.time()
        split = [(w, W, (n - w + W - 1) // W) for w in range(W)]
        res, runs = run_leg(prop, leg, li, tier, lseed, known, tmp, rdir, limit, split, n, "m")
        wall = time.time() - t1
        legruns.append(runs)
        viol = sorted((v for r in res for v in r["violations"]), key=lambda v: v["index"])
        for v in viol:
            if leg.tag:
                with open(v["replay"]) as f:
                    t = f.read()
                with open(v["replay"], "w") as f:
                    f.write("# engine: %s\n" % leg.tag + t)
            if v["class"] in known:
                if v["class"] not in seen_known and confirm(v["replay"], v["class"]):
                    seen_known[v["class"]] = v
            elif any(f["class"] == v["class"] for f in found):
                continue        # one confirmed replay of each class is enough
            elif confirm(v["replay"], v["class"]):
                found.append(v)
            else:
                unconfirmed.append(v)
        sigs = {s for h, s, nt in runs.values() if nt}
        allsig |= {(li, s) for s in sigs}
        evals += len(runs)
        cut |= any(r["cut"] for r in res)
        for r in res:
            faults.update(r["faults"])
            simt += r["simtime_us"]; ticks += r["ticks"]; calls += r["calls"]; checks += r["checks"]
            if len(samples) < 3:
                samples += r["samples"][:1]
        # determinism: the same seeds again in other processes, split in another way
        rerun = bad = 0
        if not found and not unconfirmed:
            k = max(16, min(n // 40, 1500 if tier == "quick" else 20000))
            if leg.arch == B.ARM:
                k = min(k, 40)
            step = max(1, n // k)
            parts = 5
            split2 = [((w * (k // parts)) * step, step, k // parts) for w in range(parts)]
            _, again = run_leg(prop, leg, li, tier, lseed, known, tmp, rdir, limit, split2, k, "d")
            diff = [i for i in again if i in runs and runs[i] != again[i]]
            rerun, bad = len(again), len(diff)
            if diff:
                raise Error("not deterministic: runs %s differ between two executions" % diff[:5])
        rr += rerun
        cov.append(dict(engine=leg.name, real_components=leg.comps + leg.extra, runs=len(runs), distinct=len(sigs), wall_s=round(wall, 2), max_cpu_s_of_a_run=max(r["max_cpu_s"] for r in res), runs_per_hour=int(len(runs) / max(wall, 0.01) * 3600), determinism_reruns=rerun, determinism_mismatches=bad))
    if prop == "C17" and not found:
        # the same seeds on both machines: what is on the wire must be the same bytes
        a, b = legruns[:2]
        diff = sorted(i for i in b if i in a and a[i][1] != b[i][1])
        evals_x = len([i for i in b if i in a])
        cov.append(dict(engine="x86-64 against aarch64", runs_compared=evals_x, wire_images_differing=len(diff)))
        if diff:
            i = diff[0]
            p = subprocess.run(legs[0].cmd() + ["plan", prop, "1" if tier == "thorough" else "0", str(seed), str(i)], env=legs[0].env(), stdout=subprocess.PIPE, text=True)
            path = "%s/%s-builds-differ-%d-%d.replay" % (rdir, prop, seed, i)
            with open(path, "w") as f:
                f.write("# engine: both\n# the bytes on the wire differ between the x86-64 and the aarch64 machine\n" + p.stdout)
            v = {"class": "builds-differ", "msg": "run %d puts different bytes on the wire on x86-64 and aarch64" % i, "replay": path, "index": i}
            (found if confirm(path, "builds-differ") else unconfirmed).append(v)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(found),
              assumptions=["sampled, not exhaustive: " + ("the run limit was cut by time" if cut else "a fixed number of seeded runs"),
                           "x86-64 host; aarch64 code runs under qemu user emulation" if len(legs) > 1 else "x86-64 host",
                           "reference implementations in sim/refs.cpp (checked against published vectors at every start)"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(allsig), rule=RULE, samples=samples,
                            runs_per_hour=int(evals / max(0.01, time.time() - tb) * 3600), simulated_seconds=round(simt / 1e6, 3), scheduling_points=ticks, library_calls=calls, oracle_evaluations=checks,
                            faults_injected=dict(faults), distinct_measure="running hash of component, operation sequence, fates and outcomes per run",
                            determinism_reruns=rr, determinism_mismatches=0, engines=cov,
                            real_code=sorted({c for l in legs for c in l.comps + l.extra}), stubs=["network", "disk", "clock", "entropy source", "allocator (failures, residue)", "thread scheduler", "callers (senders, receivers, journal, aggregator)"],
                            known_findings_seen=sorted(seen_known), build_s=round(tb - t0, 2)))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    subprocess.run(["rm", "-rf", tmp])
    for c, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[c]))
    if found:
        for v in found[:3]:
            print("%s: %s: %s" % (prop, v["class"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, found[0]["replay"]), flush=True)
        return 1
    if unconfirmed:
        print("%s: a failure did not repeat and is not reported as a violation: %s" % (prop, unconfirmed[0]))
        return 2
    print("%s holds on %d runs (%d distinct non-trivial), %.1f s" % (prop, evals, len(allsig), wall))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == "replay":
            t = open(sys.argv[2]).read()
            B.build([j for l in PROPS[re.search(r"^prop (\S+)", t, re.M).group(1)] for j in l.jobs()])
            r = replay_file(sys.argv[2], "-v" in sys.argv)
            print(r["line"] if r else "the replay could not be run")
            return 2 if r is None else 1 if r["cls"] else 0
        if sys.argv[1] == "build":
            B.build([j for p in PROPS.values() for l in p for j in l.jobs()])
            return 0
        return check(sys.argv[1])
    except B.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    except Error as e:
        print("error: %s" % e)
        return 2


sys.exit(main())
