#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json.  Properties in CLAIMED get a check; the others
are listed as not applicable with the reason in NA."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
LIFE = "explicit-state search over lives of a key (sessions of real operations, closes and kills; states are disk contents)"
SCHED = "stateless exploration of all schedules up to a preemption bound under a controlled scheduler"
MEM = "Trusts the in-memory model of file system, lock file and memory mapping, which the uninstrumented runs of C14 and C15 compare with the real ones, and the independent implementation of RFC 8391 in src/ref."
T = {
 "C01": (LIFE + "; " + SCHED, "exhaustive for keys of 2-16 signatures and operation sequences up to the stated length per session, any number of sessions (to a fixpoint or the stated age), with kills at every file system change and (some configurations) every statement. " + MEM),
 "C02": (SCHED + ", also under the race detector", "all schedules with at most 2 (thorough 3) preemptions of 2-3 goroutines in the listed scenarios; races are those the Go race detector sees on these schedules. " + MEM),
 "C03": ("exhaustive enumeration of power failures: every change of every short history with every loss or tearing of what was not synced", "all crash points; per crash point all subsets of pending directory changes and file variants up to a deviation bound. The model of what a power failure may lose follows POSIX (only fsync'ed data and directory entries are safe). " + MEM),
 "C04": ("exhaustive fault enumeration: every environment call of every short history fails in every way", "every single failing call (thorough: pairs) in all histories up to the stated length, with fail-before, partial and fail-after effects, followed by use, kill and reload; schedules of concurrent signers with a failing call. " + MEM),
 "C05": (LIFE + "; " + SCHED, "as C01; each signature is compared with an independent implementation and verified. " + MEM),
 "C06": ("exhaustive enumeration of damaged cache files, and kills at every statement that changes the cache", "all single-byte changes (3 values), truncations, block exchanges, header words and foreign blocks of the listed caches. " + MEM),
 "C07": ("exhaustive enumeration of parameter sets, sequence numbers and messages against an independent implementation, on the real code", "all parameter sets and all sequence numbers of small trees, boundaries of large ones; large named sets by their operations at boundaries. Trusts src/ref, which is itself checked against published test vectors."),
 "C08": ("exhaustive enumeration of digests (one/two digits in all positions, all checksum values) through dictated hash functions", "complete over checksum values and over pairs of digests per chain position in the stated families. The hash functions are replaced by controllable ones in the mock build."),
 "C10": ("exhaustive enumeration of changes to genuine signatures, keys and messages on the real code, and of single-bit differences of dictated hash values", "all single bits of the listed parameter sets (in quick mode, for expensive ones, two bits of every so many bytes besides the block ends), all pairs of blocks, all mixtures of layers, all pairings; every bit of the computed root and of the digest, through replaced hash functions."),
 "C11": ("exhaustive enumeration of headers, lengths, short strings and pairs of parameter sets on the real decoders", "complete over the 2^21 headers with bodies of several lengths (exact, off by one, short); bodies are constant or pseudo-random, junk signatures are verified where that is cheap."),
 "C12": ("exhaustive enumeration of headers, parameter values and, per supported parameter set, encodings, on the real code", "complete over headers with the magic (thorough: all 2^32) and over the parameter grid; bodies are patterns; all memory handed in and out is overwritten to reveal aliasing."),
 "C13": ("exhaustive enumeration of the standards' tables, OIDs, a parameter grid and names, on the real code against an independent table and parser", "complete over the supported parameter sets, OIDs below 2^16, and the listed name grammars and edits."),
 "C14": ("explicit-state search over sessions with a cache container (states are the files with the map they represent) to a fixpoint, and all operation sequences on the real file system", "all sequences of sessions over 2-5 subtree addresses for buffers of one to ten pages; real files: all sequences up to length 4 (thorough 6). " + MEM),
 "C16": (LIFE + "; " + SCHED, "as C01. " + MEM),
 "C20": (LIFE + "; whole lives of small keys; " + SCHED, "as C01, near the end of keys of every tree shape up to 2^62. " + MEM),
 "C21": (LIFE + "; " + SCHED, "as C01; every signature is compared byte for byte. " + MEM),
 "C22": ("exhaustive enumeration of kills, power failures and environment faults during key creation", "every file system change and fault in creation over every kind of earlier contents. The random source is a controllable stand-in. " + MEM),
 "C09": ("exhaustive enumeration of instances, digests and ways of computing them (workers, four-way hashes, with and without AVX2) on the real code, compared with an independent implementation; " + SCHED + " of the workers", "all small parameter sets in both hashing ways; all groupings of chains by length through dictated digests; worker schedules up to the stated preemption bound. Trusts src/ref."),
 "C15": ("explicit-state enumeration of all operation sequences of two real processes against a model of the lock; " + SCHED + " of simulated processes at file system calls, with every kill point and every failing call", "all sequences up to length 5 (thorough 6) of open, sign, close, close again, kill, damage; schedules with at most 2 (thorough 3) preemptions; the lock file package is atomic in schedules, and real in the sequences."),
 "C17": ("exhaustive enumeration of histories of signs, failures, kills and reloads, and of signature orders, against a model of what may be and must be cached; " + SCHED, "all histories up to the stated length over the listed trees, up to numbers beyond 2^32. " + MEM),
 "C18": (SCHED + ", also under the race detector; all operation sequences around Close", "all schedules with at most 2 (some 1; thorough one more) preemptions of 1-3 goroutines that close, sign, reserve and precompute, on a container that destroys its memory when closed and on protected mappings. " + MEM),
 "C19": ("exhaustive enumeration of readers (how they split, end and fail) and failing environments on the real code", "all ways to split messages up to the stated length into reads, with every end and every error. "),
 "C23": ("stateless exploration of all schedules up to a preemption bound of all pairs of public operations, under the race detector and at statements", "all pairs (and some triples) of the public operations on shared objects; the race detector decides about accesses between scheduling points."),
 "C24": ("explicit-state search over sessions with caches written in the old format and in the new one with every alignment listed; exhaustive lives of keys with converted caches", "all arrangements of up to three entries and holes, eleven formats, three page sizes, to a fixpoint. " + MEM),
 "C25": ("exhaustive enumeration of damaged, mixed and foreign key files against an independent decoder of the format", "all values of all header bytes, all truncations, the product of boundary values of all fields (quick: with at most two unsupported fields), all splices with other key files; supported keys beyond a size limit are not loaded. " + MEM),
 "C26": ("exhaustive enumeration of short histories with every environment call failing in every way, monitored after every change to the file system", "all histories up to the stated length; secrets are recognised by their 8-byte pieces in binary, hexadecimal, decimal and base64. " + MEM),
 "C27": ("exhaustive enumeration of short histories of the real code with the executed statements of every step compared with what a model of the cache allows; " + SCHED, "all histories up to the stated length from the stated positions; schedules with one preemption (thorough two). Work is counted in executed statements, in units calibrated on the same build, and with margins: repeating a check of a subtree or anything bigger is noticed. " + MEM),
 "C28": ("exhaustive enumeration of short histories, failing calls and permitted behaviours of a container that monitors the contract; " + SCHED + " with scheduling points within the container's calls", "all histories up to the stated length for the listed kinds of containers; every single failing call (and it with all later ones); schedules with at most 2 (some 1; thorough one more) preemptions. Trusts src/ref."),
}
extra = os.path.join(here, "tools", "claims.json")
if os.path.exists(extra):
    T.update({k: tuple(v) for k, v in json.load(open(extra)).items()})
level = {}
builds = {l.split()[0] for l in open(os.path.join(here, "builds.txt")) if l.strip()}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T and i in builds:
        checks.append({"property": i, "quick_cmd": "./check.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
            "technique": "model checking: " + T[i][0], "level": "model_checking",
            "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "not checked yet (check under construction)"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness is compiled into the module through go build -overlay, and the instrumented builds rewrite copies of the sources (imports of sync, os, ... and statements) on the way. All changes in /repo are repairs (fix:)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
