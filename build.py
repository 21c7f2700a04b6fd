#!/usr/bin/env python3
"""Builds the simulator and the components of /repo it runs, into /verif/build.

Every component is compiled from /repo's working tree into a shared object of
its own with the flags the repository documents, plus coverage callbacks (the
simulator's seam for scheduling) and wrapped allocation and locking symbols.
Results are cached by content, so a changed source is always rebuilt."""
import concurrent.futures as cf, glob, hashlib, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
SIM = os.path.join(HERE, "sim")
X86, ARM = "x86", "arm"
CXX = {X86: "g++", ARM: "aarch64-linux-gnu-g++"}
A = "BlockCiphers/AES/"
S = "StreamCiphers/"
HASH = "Hash/SHA/SHA-2/SHA-256"
JLD = "AsymmetricCryptography/Joye_libert"
MUD = "AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE"
LHD = "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE"
HW = ["-Dx86_INTRINSICS", "-maes", "-msse4.1"]
AHW = ["-DARM_INTRINSICS", "-march=armv8-a+crypto"]
# name -> (shim, directory, flags, extra sources, exclude, libraries, extra include directories)
COMP = {}
for k, plain, x86, arm in (("cfb", A + "AES/AES_CFB", A + "AES_x86/AES_CFB_Carry-Over", A + "AES_ARM/AES_CFB_Carry-Over"),
                           ("ctr", A + "AES/AES_CTR", A + "AES_x86/AES_CTR", A + "AES_ARM/AES_CTR"),
                           ("aegis", S + "AEGIS/AEGIS", S + "AEGIS/AEGIS_x86", S + "AEGIS/AEGIS_ARM")):
    COMP[k + ".plain"] = (k, plain, [], [], [], [], [])
    COMP[k + ".x86fb"] = (k, x86, [], [], [], [], [])
    COMP[k + ".x86hw"] = (k, x86, HW, [], [], [], [])
    COMP[k + ".armfb"] = (k, arm, [], [], [], [], [])
    COMP[k + ".armhw"] = (k, arm, AHW, [], [], [], [])
for _v, _f in (("plain", []), ("x86fb", []), ("x86hw", HW)):
    COMP["ctr.%s.fast" % _v] = ("ctr", A + ("AES/AES_CTR" if _v == "plain" else "AES_x86/AES_CTR"), ["-O2"] + _f, [], [], [], [])
for _v, _f in (("plain", []), ("x86fb", []), ("x86hw", HW)):
    COMP["aegis.%s.fast" % _v] = ("aegis", S + "AEGIS/AEGIS" + ("" if _v == "plain" else "_x86"), ["-O2"] + _f, [], [], [], [])
COMP["aegis.o0.fast"] = ("aegis", S + "AEGIS/AEGIS_x86", HW, [], [], [], [])       # as documented, without callbacks
COMP["cfb.rr"] = ("cfb", A + "AES/AES_CFB", ["-DROUND_REDUCED"], [], [], [], [])
COMP["chacha.r20"] = ("chacha", S + "ChaCha", [], [], [], [], [])
COMP["chacha.r12"] = ("chacha", S + "ChaCha", ["-DTWELVE_ROUNDS"], [], [], [], [])
COMP["chacha.r8"] = ("chacha", S + "ChaCha", ["-DEIGHT_ROUNDS"], [], [], [], [])
COMP["chacha.fast"] = ("chacha", S + "ChaCha", ["-O2"], [], [], [], [])
COMP["hc128"] = ("hc128", S + "HC-128", [], [], [], [], [])
COMP["rabbit"] = ("rabbit", S + "Rabbit", [], [], ["test_rf.cpp"], [], [])
COMP["sosemanuk"] = ("sosemanuk", S + "Sosemanuk", [], [], [], [], [])
COMP["serpent"] = ("serpent", "BlockCiphers/Serpent", [], [], [], [], [])
COMP["sha"] = ("sha", HASH, [], [], [], [], [])
COMP["sha.fast"] = ("sha", HASH, ["-O2"], [], [], [], [])
COMP["hmac.fast"] = ("hmac", "Authentication/HMAC-SHA-256", ["-O2"], [], [], [], [])
COMP["hmac.own"] = ("hmac", "Authentication/HMAC-SHA-256", [], [], [], [], [])
COMP["hmac.hash"] = ("hmac", "Authentication/HMAC-SHA-256", [], [HASH + "/sha-256.cpp"], ["sha-256.cpp"], [], [HASH])
COMP["md5"] = ("md5", "Legacy/MD5", [], [], [], [], [])
COMP["md5.fast"] = ("md5", "Legacy/MD5", ["-O2"], [], [], [], [])
COMP["des"] = ("des", "Legacy/DES", [], [], [], [], [])
COMP["hex"] = ("hex", "Encoders/Hex", [], [], [], [], [])
COMP["hex.o0.fast"] = ("hex", "Encoders/Hex", [], [], [], [], [])
COMP["jl"] = ("jl", JLD, [], [], [], ["-lgmp"], [])
COMP["lhe"] = ("lhe", LHD, [], [JLD + "/joye_libert.cpp", S + "HC-128/hc128.cpp"], [], ["-lgmp"], [S + "HC-128", JLD])
COMP["mulhe"] = ("mulhe", MUD, [], [JLD + "/joye_libert.cpp", S + "HC-128/hc128.cpp"], [], ["-lgmp"], [S + "HC-128", JLD])
COMP["lhe.alt"] = ("lhe", LHD, ["-O1"], [JLD + "/joye_libert.cpp", S + "HC-128/hc128.cpp"], [], ["-lgmp"], [S + "HC-128", JLD])
WRAP = ",".join("--wrap=" + s for s in ("malloc", "calloc", "realloc", "free", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort",
                                         "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once"))
SEAM = re.compile(r"__gmpz_\w+|__gmpn_\w+|__gmp_rand\w+|mem(?:cpy|set|move|cmp)|_Zn[wa]m|_Zd[la]Pvm?")      # calls that leave a component: the scheduler may step in there
SIMSRC = ["core", "interpose", "refs", "scen", "scen_net", "scen_unit", "scen_gmp", "scen_link", "main"]


class BuildError(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def digest(files, extra):
    h = hashlib.sha256(repr(extra).encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def fresh(target, key):
    try:
        with open(target + ".key") as f:
            return f.read() == key and os.path.exists(target)
    except OSError:
        return False


def done(target, key):
    with open(target + ".key", "w") as f:
        f.write(key)


def strip_comments(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", t, flags=re.S)


def has_main(path):
    with open(path, errors="replace") as f:
        return re.search(r"^\s*(?:int|auto|signed)\s+main\s*\(", strip_comments(f.read()), re.M) is not None


def build_object(src, obj, flags, arch, deps):
    key = digest(deps, (CXX[arch], flags))
    if fresh(obj, key):
        return
    sh([CXX[arch]] + flags + ["-c", src, "-o", obj])
    done(obj, key)


def build_comp(name, arch, flavour, out):
    shim, d, flags, extra, excl, libs, incs = COMP[name]
    d = os.path.join(REPO, d)
    srcs = [s for s in sorted(glob.glob(d + "/*.cpp") + glob.glob(d + "/*.cc") + glob.glob(d + "/*.c")) if os.path.basename(s) not in excl and not has_main(s)]
    srcs += [os.path.join(REPO, e) for e in extra]
    incdirs = [d] + [os.path.join(REPO, i) for i in incs]
    deps = set(srcs)
    for i in set(incdirs + [os.path.dirname(s) for s in srcs]):
        for ext in ("h", "hpp", "inc", "hh", "cpp", "c"):
            deps.update(glob.glob(i + "/*." + ext))
    fast = flavour == "fast" or name.endswith(".fast")
    inst = [] if fast else ["-fsanitize-coverage=trace-pc"] + (["-fsanitize=thread"] if flavour == "fine" else [])
    base = ["-O3" if flavour == "opt" else "-O0", "-g"] + flags + ["-fPIC", "-fno-gnu-unique", "-w"] + ["-I" + i for i in incdirs]
    key = digest(list(deps) + glob.glob(SIM + "/shims/*.*") + [SIM + "/ops.h"], (CXX[arch], base, inst, libs, WRAP, SEAM.pattern, srcs, shim))
    so = os.path.join(out, name + ".so")
    if fresh(so, key):
        return
    tmp = os.path.join(out, "obj." + name)
    os.makedirs(tmp, exist_ok=True)
    objs = []
    for n, s in enumerate(srcs):
        o = "%s/%d.o" % (tmp, n)
        sh([CXX[arch]] + base + inst + ["-c", s, "-o", o])
        objs.append(o)
    o = tmp + "/shim.o"
    sh([CXX[arch]] + base + ["-I" + SIM, "-c", "%s/shims/%s.cpp" % (SIM, shim), "-o", o])
    objs.append(o)
    extra_objs, extra_link = seams(objs[:-1], tmp) if arch == X86 and not fast else ([], [])
    ver = tmp + "/exports"
    with open(ver, "w") as f:
        f.write("{ global: cx_ops; local: *; };\n")
    sh([CXX[arch], "-shared", "-Wl,-z,now", "-Wl," + WRAP, "-Wl,--version-script=" + ver, "-o", so + ".tmp"] + objs + extra_objs + extra_link + libs)
    os.rename(so + ".tmp", so)
    done(so, key)


def build_sim(arch, out, pool):
    fl = ["-std=c++17", "-O2", "-w", "-U_FORTIFY_SOURCE", "-I" + SIM] + (["-DHAVE_GMP"] if arch == X86 else [])
    deps = glob.glob(SIM + "/*.h")
    os.makedirs(out + "/obj.sim", exist_ok=True)
    objs = ["%s/obj.sim/%s.o" % (out, s) for s in SIMSRC]
    fs = [pool.submit(build_object, "%s/%s.cpp" % (SIM, s), o, fl, arch, deps + ["%s/%s.cpp" % (SIM, s)]) for s, o in zip(SIMSRC, objs)]

    def link():
        for f in fs:
            f.result()
        key = digest([o + ".key" for o in objs], ("link",))
        exe = out + "/sim"
        if fresh(exe, key):
            return
        sh([CXX[arch], "-rdynamic", "-o", exe + ".tmp"] + objs + ["-ldl", "-lpthread"] + (["-lgmp"] if arch == X86 else []))
        os.rename(exe + ".tmp", exe)
        done(exe, key)
    return link


def seams(objs, tmp):
    """Every call that leaves the component first goes through sim_seam (x86-64 only)."""
    nm = subprocess.run(["nm", "-u"] + objs, stdout=subprocess.PIPE, text=True, check=True).stdout
    names = sorted({w for w in nm.split() if SEAM.fullmatch(w)})
    if not names:
        return [], []
    regs = "rdi rsi rdx rcx r8 r9 rax".split()
    body = "".join("__wrap_%s:\n%scall sim_seam@PLT\n%sjmp __real_%s@PLT\n" % (n, "".join("push %%%s\n" % r for r in regs), "".join("pop %%%s\n" % r for r in reversed(regs)), n) for n in names)
    with open(tmp + "/seam.s", "w") as f:
        f.write(".text\n" + "".join(".globl __wrap_%s\n" % n for n in names) + body + '.section .note.GNU-stack,"",@progbits\n')
    sh(["gcc", "-c", tmp + "/seam.s", "-o", tmp + "/seam.o"])
    return [tmp + "/seam.o"], ["-Wl," + ",".join("--wrap=" + n for n in names)]


def outdir(arch, flavour):
    return os.path.join(BUILD, "arm" if arch == ARM else {"coarse": "x86", "fine": "x86-fine", "fast": "x86-fast", "opt": "x86-opt"}[flavour])


def build(jobs):
    """jobs: list of (arch, flavour, [component names]). Returns nothing; raises BuildError."""
    with cf.ThreadPoolExecutor(max_workers=max(4, os.cpu_count() or 4)) as pool:
        links, fs = [], []
        for arch in sorted({j[0] for j in jobs}):
            o = outdir(arch, "coarse")
            os.makedirs(o, exist_ok=True)
            links.append(build_sim(arch, o, pool))
        for arch, flavour, names in jobs:
            o = outdir(arch, flavour)
            os.makedirs(o, exist_ok=True)
            for n in names:
                fs.append(pool.submit(build_comp, n, arch, flavour, o))
        for l in links:
            l()
        for f in fs:
            f.result()


X86_LIBS = [n for n in COMP if not n.endswith((".armhw", ".fast", ".alt"))]
ARM_LIBS = [n for n in COMP if n.split(".")[0] in ("cfb", "ctr", "aegis") and n.split(".")[1] in ("plain", "armfb", "armhw")]
if __name__ == "__main__":
    try:
        build([(X86, "coarse", [n for n in COMP if not n.endswith(".armhw")]), (X86, "fine", X86_LIBS), (X86, "opt", X86_LIBS), (ARM, "coarse", ARM_LIBS)])
    except BuildError as e:
        print(e)
        sys.exit(2)
