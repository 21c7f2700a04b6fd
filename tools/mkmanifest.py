#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
T = {
 "C01": ("a simulated lossy link (loss, duplication, reordering, corruption, truncation, splicing, partitions, restarts, crash inside a call) between two AES-CFB contexts", "Judged against a resynchronisation model and an independent CFB-128; x86-64 natively, aarch64 under qemu."),
 "C02": ("simulated sender/receiver with channel faults, abandoned calls and restarts against independent implementations of every cipher", "Every packet compared with the published algorithm, including lengths up to several MB in some runs."),
 "C03": ("long simulated sessions with lag, stalls and re-chunked twins", "Keystream windows of 8 bytes collected per session; AES-CTR counters checked past 2^24 blocks in optimised builds."),
 "C04": ("simulated encrypt-then-MAC receiver under forgery, tampering, rekeying and restarts with poisoned memory", "Verdicts compared with an independent RFC 2104 HMAC-SHA-256 over the bytes received."),
 "C05": ("simulated AEGIS link with every kind of alteration in transit", "Verdict and plaintext buffer compared with an independent AEGIS-128."),
 "C06": ("seeded scheduler preempting caller threads at basic blocks and at accesses to library static storage", "Each call compared with its solo run. Only interleavings of callers with distinct contexts."),
 "C07": ("simulated checkpoints, crashes inside calls, restores at other addresses and in other processes", "Compared with an uninterrupted twin replaying the same history."),
 "C08": ("seeded allocation failures inside calls against a twin with memory", "Only the components that do not call GMP (GMP ends the process when out of memory)."),
 "C09": ("simulated delivery of malformed packets into guarded buffers with an instruction budget", "Guard pages, canaries, input copies, coverage-tick budget."),
 "C10": ("simulated arrival schedules of digest updates, interleaved, abandoned and checkpointed", "Compared with an independent RFC 1321 MD5, past 2^29 bytes in some runs."),
 "C11": ("simulated journal on a faulty disk (torn, lost, stale, misplaced writes, bit rot, full disk, crashes)", "Compared with an independent SHA-256."),
 "C12": ("simulated aggregation network (loss, duplication, reordering, partitions, restarts, abandoned and retried calls)", "Compared with integer arithmetic; keys produced by the library and by the simulator."),
 "C13": ("simulated evaluation sessions with random programs, arrival orders, abandoned calls and restarts", "Compared with integer arithmetic modulo 2^k on the plaintexts."),
 "C14": ("simulated parties with poisoned memory, checkpoints, restarts and abandoned calls", "Masks compared between parties and across restores."),
 "C15": ("simulated repetition of packet histories with allocator accounting", "Counts blocks and bytes held after each round, including GMP's allocations."),
 "C16": ("simulated entropy, clock and generator seams with abandoned encryptions", "Ciphertexts compared across generator states; one known finding on key generation."),
 "C17": ("one simulated fleet running every build side by side, and the same seeds on an emulated aarch64 machine", "Wire bytes compared between all builds."),
 "C18": ("simulated DES link with block loss, duplication, reordering and corruption", "Compared with an independent DES."),
 "C19": ("simulated runs with all outcomes and captured output seams", "Bytes written to file descriptors during calls, and every interposed write."),
 "C20": ("simulated text channel (damaged, cut, repeated, reordered lines; pieces; abandoned calls and restarts with poisoned memory)", "Compared with an independent encoder; includes a text of more than 2^31 characters."),
 "C21": ("simulated forger with a clock that counts executed steps, over histories of forgeries, packets, rekeying, abandoned calls and restarts", "Steps are basic blocks of the code as built here without optimisation; what a processor makes of them is outside simulation."),
 "C22": ("simulated network of two whole nodes with links in both directions, faulty channels, node crashes inside calls, checkpoints and rekeying", "The application around the real calls is part of the simulator; releases are compared with what was sent and tags with an independent HMAC-SHA-256."),
}
checks = []
for i, (p, (tech, note)) in enumerate(sorted(T.items())):
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p, evidence_file="evidence/%s.json" % p,
                       technique="deterministic simulation with fault injection: " + tech, level="exploration",
                       level_note=note + " Seeded sampling, not exhaustive; trusts the reference implementations in sim/refs.cpp, checked against published vectors at every start."))
m = dict(version=1, setup_cmd="python3 build.py", checks=checks, not_applicable=[
    dict(property="C23", reason="A statement about all efficient attackers: no schedule, fault or history that a simulation could draw decides it; it rests on the published algorithms (whose bytes C02 to C05 compare).")],
    notes="No hooks in /repo: the seams (allocator, clocks, entropy, output, locks, basic-block and memory-access callbacks) are attached when the components are compiled and linked from /verif.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
