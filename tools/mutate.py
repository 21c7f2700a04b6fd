#!/usr/bin/env python3
"""Development aid: automatic mutants of /repo's library sources, to look for blind spots.

mutate.py RESULTS N SEED [WORKERS] [FILE-REGEX]
Each mutant changes one operator, constant or statement of one file in a scratch copy;
the checks of the properties the file matters to run with fewer runs until one fails.
Survivors are listed in RESULTS with their diff: each is an equivalent change or a gap."""
import concurrent.futures as cf, os, random, re, subprocess, sys, threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == "--one":
    src = open(HERE + "/check.py").read().replace("sys.exit(main())", "")
    sys.path.insert(0, HERE)
    sys.argv = ["check.py", sys.argv[2]]
    g = {"__name__": "check", "__file__": HERE + "/check.py"}
    exec(compile(src, "check.py", "exec"), g)
    g["W"] = 2
    for legs in g["PROPS"].values():
        for l in legs:
            l.count["quick"] = max(40, l.count["quick"] // int(os.environ.get("DIV", "12")))
    sys.exit(g["main"]())
A, S = "BlockCiphers/AES/", "StreamCiphers/"
JL, LH = "AsymmetricCryptography/Joye_libert/", "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/"
FILES = {
    A + "AES/AES_CFB/aes_cfb.cpp": "C01 C17 C09 C07", A + "AES/AES_CFB/aes_cfb.h": "C01 C17 C09", A + "AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp": "C01 C17 C09", A + "AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp": "C01 C17",
    A + "AES/AES_CTR/aes_ctr.cpp": "C02 C03 C17 C09", A + "AES_x86/AES_CTR/aes_ctr.cpp": "C02 C03 C17 C09", A + "AES_ARM/AES_CTR/aes_ctr.cpp": "C02 C17",
    S + "AEGIS/AEGIS/aegis_128.cpp": "C05 C17 C09", S + "AEGIS/AEGIS_x86/aegis_128.cpp": "C05 C17 C09", S + "AEGIS/AEGIS_ARM/aegis_128.cpp": "C05 C17",
    S + "AEGIS/AEGIS_x86/aegis_128.h": "C05 C17",
    S + "ChaCha/chacha.cpp": "C02 C03 C09", S + "HC-128/hc128.cpp": "C02 C03 C09", S + "HC-128/hc128.h": "C02 C03", S + "Rabbit/rabbit.cpp": "C02 C03 C09", S + "Sosemanuk/sosemanuk.cpp": "C02 C03 C09",
    S + "Sosemanuk/sosemanuk.h": "C02 C03", S + "Sosemanuk/serpent.cpp": "C02 C09 C08", "BlockCiphers/Serpent/serpent.cpp": "C02 C09 C08", "Authentication/HMAC-SHA-256/hmac.cpp": "C04 C21 C22 C09 C07", "Authentication/HMAC-SHA-256/sha-256.cpp": "C04 C09 C08",
    "Hash/SHA/SHA-2/SHA-256/sha-256.cpp": "C11 C09 C08", "Legacy/MD5/md5.cpp": "C10 C09 C07", "Legacy/DES/des.cpp": "C18 C09", "Legacy/DES/des.h": "C18",
    JL + "joye_libert.cpp": "C12 C16 C15 C13", LH + "labeled_he.cpp": "C13 C14 C15 C16 C12",
    LH.replace("LabeledHE/", "muLabeledHE/") + "mu_labeled_he.cpp": "C13 C14 C15 C16 C12", "Encoders/Hex/encoder.cpp": "C20 C09",
}
OPS = [(r"(?<![+\-<>=!&|*/^])<(?![<=])", ["<=", ">"]), (r"<=", ["<"]), (r"(?<![\->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"(?<![+\w])\+(?![+=])", ["-"]), (r"\+=", ["-="]), (r"\^=", ["|="]), (r"(?<=[\w)\]] )\^(?!=)", ["|", "&"]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"<<(?!=)", [">>"]), (r">>(?!=)", ["<<"]), (r"(?<![\w.])\d+(?![\w.])", ["+1", "-1"]), (r"0x[0-9a-fA-F]+", ["bit"]), (r"\+\+", ["--"]), (r"uint64_t", ["uint32_t", "int"]), (r"uint32_t(?! \*)", ["uint16_t"])]


def sites(path):
    out, text, incomment, debug = [], open(path).read().split("\n"), False, 0
    for n, line in enumerate(text):
        s = line.strip()
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if s.startswith("#"):
            debug = 1 if re.match(r"#\s*if.*DEBUG", s) else 0 if s.startswith(("#endif", "#else")) else debug
        if debug or not s or s.startswith(("//", "#", "*")):
            continue
        code = re.sub(r"/\*.*?\*/", lambda m: " " * len(m.group(0)), line.split("//")[0])
        if "cout" in code or "debug" in code.lower() or re.match(r"^\S.*\(.*;\s*$", code):
            continue
        for rx, subs in OPS:
            for m in re.finditer(rx, code):
                for sub in subs:
                    t = m.group(0)
                    if sub in ("+1", "-1"):
                        new = str(int(t) + int(sub))
                        if int(new) < 0 or len(t) > 9:
                            continue
                    elif sub == "bit":
                        new = hex(int(t, 16) ^ 1 << random.randrange(max(1, int(t, 16).bit_length())))
                    else:
                        new = sub
                    out.append((n, line[:m.start()] + new + line[m.end():]))
        if re.match(r"^\s*[\w\*>\[\].\->:(]+.*;\s*$", code) and not re.match(r"^\s*(return|break|const|static|uint\w+|int|mpz_t|char|bool|unsigned|u32|u8|he_ct|goto|}|typedef)\b", code):
            out.append((n, re.match(r"\s*", line).group(0) + ";"))
    return out


def main():
    res, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    workers = int(sys.argv[4]) if len(sys.argv) > 4 else 4
    rx = re.compile(sys.argv[5] if len(sys.argv) > 5 else ".")
    random.seed(seed)
    files = [f for f in FILES if rx.search(f)]
    jobs = []
    per = {f: sites("/repo/" + f) for f in files}
    for k in range(count):
        f = files[k % len(files)]
        if per[f]:
            jobs.append((f,) + per[f].pop(random.randrange(len(per[f]))))
    random.shuffle(jobs)
    free = list(range(workers))
    lock = threading.Lock()
    for w in free:
        d = "/tmp/mut/%d" % w
        subprocess.run("rm -rf %s; mkdir -p %s; cp -a /repo %s/repo" % (d, d, d), shell=True, check=True)
    tally = {}
    out = open(res, "a")

    def one(job):
        f, n, new = job
        with lock:
            w = free.pop()
        d = "/tmp/mut/%d" % w
        path = d + "/repo/" + f
        orig = open(path).read()
        try:
            lines = orig.split("\n")
            old = lines[n]
            lines[n] = new
            open(path, "w").write("\n".join(lines))
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_BUILD=d + "/build", VERIF_EVIDENCE=d + "/ev")
            verdict = "SURVIVED"
            stages = [(p, "12") for p in FILES[f].split()] + [(p, "1") for p in FILES[f].split()]
            for p, env["DIV"] in stages:
                try:
                    r = subprocess.run([sys.executable, __file__, "--one", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=700)
                except subprocess.TimeoutExpired:
                    verdict = "TIMEOUT " + p
                    break
                if r.returncode == 1:
                    verdict = "killed " + p if env["DIV"] != "1" else "late " + p
                    break
                if r.returncode == 2:
                    verdict = "nobuild" if "build failed" in r.stdout else "NOANSWER " + p + " " + r.stdout[-300:].replace("\n", " ")
                    break
            with lock:
                tally[verdict.split()[0]] = tally.get(verdict.split()[0], 0) + 1
                if verdict.split()[0] in ("SURVIVED", "NOANSWER", "TIMEOUT", "late"):
                    out.write("%s %s:%d\n  - %s\n  + %s\n" % (verdict, f, n + 1, old.strip(), new.strip()))
                    out.flush()
        finally:
            open(path, "w").write(orig)
            with lock:
                free.append(w)
    with cf.ThreadPoolExecutor(workers) as pool:
        list(pool.map(one, jobs))
    out.write("# %s\n" % tally)
    print(tally)
    subprocess.run("rm -rf " + " ".join("/tmp/mut/%d" % w for w in range(workers)), shell=True)


main()
