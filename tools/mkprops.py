#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        }})

prop("C01", "One-time keys are used once, across restarts and crashes",
 "No signature sequence number is ever handed out twice for the same private key, and no WOTS+ one-time key at any layer ever signs two different values. This holds for every sequence of signing, reserving (borrowing) more or fewer numbers, conditional reserving, closing and reloading, and for a process kill at any moment in between.",
 ["histories", "crash_points"],
 "every sequence of Sign/BorrowExactly/BorrowExactlyIfBelow/Close+Load/kill+Load operations, and every instant at which the process is killed",
 "Tests run one signing sequence with one clean close; they never crash, never lower a reservation and never compare sequence numbers over several sessions of a key.",
 ["api.go", "core.go", "container.go"],
 [("persist-before-use in the sequence number allocator", "core.go getSeqNo"), ("reservation", "api.go borrowExactly, container.go BorrowSeqNos/SetSeqNo"), ("correcting the number at Close", "api.go Close")],
 [("sk.seqNo / sk.borrowed", "next number and how many are already reserved on disk", "api.go PrivateKey"), ("ctr.seqNo / ctr.borrowed", "number stored in the key file", "container.go fsContainer")],
 ["Signature.SeqNo()", "bytes of the key file", "LoadPrivateKey"])

prop("C02", "Concurrent use of a private key is atomic, race-free and live",
 "When several goroutines sign with, reserve numbers on and query the same private key, each signature gets its own sequence number and verifies, no call deadlocks or panics, and no two accesses form a data race. This includes goroutines that need the same missing, not yet checked or damaged cached subtree at the same time.",
 ["schedules"],
 "every interleaving (up to a preemption bound) of 2-3 goroutines calling Sign, BorrowExactly(IfBelow), accessors and subtree precomputation, started from fresh, reloaded and cache-damaged keys",
 "TestSeqNoRetirement runs one free-running schedule without looking at the signatures it gets and without damaged or shared missing subtrees.",
 ["core.go", "api.go"],
 [("mutex and condition variable around subtree generation", "core.go getSubTree"), ("sequence number allocation under the lock", "core.go getSeqNo"), ("retirement heap", "core.go retireSeqNo")],
 [("subTreeReady/subTreeChecked", "per-subtree generation state", "api.go PrivateKey")],
 ["Sign results", "race detector", "deadlock detection"])

prop("C03", "Sequence number and key survive power loss",
 "Once a signature is returned, or reserving or closing is acknowledged, no power failure - with any subset of not yet synced data and directory changes lost or torn - makes the key unloadable, changes the key pair, or makes an already issued sequence number be issued again.",
 ["crash_points", "histories"],
 "every crash point of every short history, and every combination (up to a deviation bound) of lost/torn unsynced file contents and unsynced directory updates",
 "No test simulates lost writes; a missing fsync or a wrong rename order is invisible to a process that keeps running.",
 ["container.go"],
 [("write temp file, fsync, rename, fsync directory", "container.go writeKeyFile"), ("persist before use", "core.go getSeqNo")],
 [("key file, temp file", "durable state", "container.go")],
 ["file system calls", "LoadPrivateKey after the crash"])

prop("C04", "I/O failures never cause reuse, panics or hangs",
 "When any file system, memory mapping or container call fails - before, in the middle of or after taking effect - the affected call returns an error or a valid signature; afterwards nothing panics or hangs, no sequence number is reused even if the process then crashes, and once the failure is gone the key can be reloaded and signs again.",
 ["fault_sequences", "histories"],
 "every single (thorough: every pair of) failing environment call in short histories of Derive/Load/Sign/Borrow/Close, each with fail-before, partial and fail-after effect, followed by continued use, crash and reload",
 "No test injects a failure; every error path of the container and of subtree generation is unexecuted.",
 ["container.go", "core.go", "api.go"],
 [("rollback after failed key file write", "container.go BorrowSeqNos/SetSeqNo"), ("abort of subtree generation", "core.go getSubTree"), ("conservative reservation bookkeeping", "api.go borrowExactly")],
 [], ["errors returned", "sequence numbers after reload"])

prop("C05", "Every signature issued verifies, wherever the key is in its life",
 "In every reachable state of a private key, Sign yields a signature that verifies under the corresponding public key for that message (and not for another message), carries the next unused sequence number, has the advertised size, and stays valid and unchanged whatever happens to the key afterwards (more signatures, dropped caches, Close).",
 ["histories", "configurations"],
 "every operation history up to a bounded length from every sequence number of small trees (all subtree boundaries of 1-6 layer trees), for every tree shape",
 "Tests verify a couple of signatures at random positions of a huge tree, so subtree boundaries, dropped subtrees and the aliasing of cached memory are not reached.",
 ["core.go", "api.go", "wots.go"],
 [("subtree path computation", "core.go subTreePathForSeqNo"), ("authentication path", "core.go AuthPath"), ("cache drop on retirement", "core.go incLeastSeqNoInUse"), ("copying out of the cache", "api.go SignFrom")],
 [], ["PublicKey.Verify", "Signature bytes over time"])

prop("C06", "Cache damage never affects keys or signatures",
 "Whatever happens to the cache file - missing, truncated, interrupted while being written, stale, with bytes flipped or entries exchanged - loading the key succeeds with the same public key and every signature issued afterwards is valid; nothing panics.",
 ["crash_points", "fault_sequences"],
 "every instant at which writing the cache is interrupted, every byte of the cache file flipped, every truncation length, every exchange of two entries and every lost/stale sector of an entry",
 "No test damages the cache; the checksum code is never executed on a mismatch.",
 ["core.go", "container.go"],
 [("checksum over cached subtree", "core.go getSubTree"), ("cache (re)initialisation on load", "api.go LoadPrivateKey/LoadPrivateKeyFrom, container.go openCache/ResetCache")],
 [("cached subtree: tree, WOTS+ signature, checksum", "entry of the cache file", "params.go CachedSubTreeSize")],
 ["public key after load", "signatures after load"])

prop("C07", "Keys and signatures are bit-exact RFC 8391 / NIST SP 800-208",
 "For every supported parameter set, the public key derived from given seeds and the signature for given seeds, sequence number and message are exactly the bytes RFC 8391 (respectively NIST SP 800-208) prescribes, and the RFC verification algorithm accepts them.",
 ["configurations", "inputs"],
 "every combination of hash function, n, w and PRF construction with every small tree shape, every leaf index of those trees, and boundary indices of 60-level trees",
 "Test vectors cover 14 named instances at one index each, in truncated form; non-registered instances and other indices are only checked against themselves.",
 ["wots.go", "hash.go", "core.go", "address.go", "params.go", "misc.go"],
 [("address scheme", "address.go"), ("hashes and PRFs", "hash.go"), ("WOTS+ and L-tree", "wots.go, core.go lTreeInto")],
 [], ["PublicKey.MarshalBinary", "Signature.MarshalBinary"])

prop("C08", "The WOTS+ checksum covers every digit of every digest",
 "For every supported n and w, the chain positions revealed by a one-time signature never dominate those of a different digest: if one digest's message digits are all at least another's, some checksum digit is smaller. The checksum chains encode exactly the sum of the remaining chain lengths.",
 ["inputs", "configurations"],
 "every attainable checksum value for every (n, w), with several digit arrangements each, and chain positions observed in real signatures",
 "Tests only sign and verify with the same code, which accepts any deterministic digit function; a checksum that is constantly zero passes.",
 ["wots.go", "params.go"],
 [("checksum computation and encoding", "wots.go wotsChainLengths/toBaseW"), ("number of checksum chains", "params.go WotsLen2")],
 [], ["chain positions visible in signatures"])

prop("C09", "Vectorised and multi-threaded computation changes nothing",
 "Public keys and signatures, and the verdict of verification, do not depend on the number of worker threads, on how the workers interleave, or on whether the four-way vectorised hash implementation is available on the machine.",
 ["schedules", "configurations", "inputs"],
 "every supported parameter set with vectorisation on and off, thread counts 1..n, all worker interleavings up to a preemption bound, and all chain-length patterns of the vectorised chain grouping",
 "Tests compare two hash calls on one input; they run with the vector unit of the build machine only and with the default thread count.",
 ["wots.go", "hash.go", "core.go", "internal/f1600x4/f1600x4_amd64.go"],
 [("four-way chains", "wots.go wotsGenChainsX4Into/wotsPkGenInto"), ("four-way hash", "hash.go fX4Into/prfAddrX4Into"), ("leaf workers", "core.go genSubTreeInto")],
 [], ["public key and signature bytes"])

prop("C10", "Verification accepts exactly the genuine signature",
 "Verify accepts a signature that was issued for that message by that key, and returns false with an error when the message, any single bit of the signature, of the public key or of the encoded sequence number or parameters is changed, when layers or authentication path nodes are exchanged, or when message, key and signature come from different pairs.",
 ["inputs", "configurations"],
 "every single-bit change of signature, public key and message, every exchange of two equally sized components, every cross pairing, and every sequence number alias, for several parameter sets",
 "Tests try one wrong message per key; a verifier that skips a chain, a layer, a tree level or the sequence number still passes them.",
 ["api.go", "wots.go", "core.go", "hash.go"],
 [("root recomputation and comparison", "api.go VerifyFrom")],
 [], ["Verify, PublicKey.Verify"])

prop("C11", "Malformed signatures and keys are rejected with an error",
 "Unmarshalling or verifying arbitrary bytes as a signature, a public key or parameters returns an error (or a verdict) and never panics, hangs or allocates without bound; a signature whose parameters differ from those of the key is reported as invalid.",
 ["inputs"],
 "every truncation and small extension of valid encodings, every value of the 4-byte parameter header (all hash, n, w, height and depth codes) with short and long bodies, and every pairing of signature and key parameters",
 "Tests only unmarshal well-formed data.",
 ["api.go", "params.go"],
 [("length and parameter checks", "api.go UnmarshalBinary, VerifyFrom"), ("parameter validation", "params.go UnmarshalBinary, api.go NewContext")],
 [], ["errors returned by Verify, UnmarshalBinary, UnmarshalText"])

prop("C12", "Encodings round-trip and do not alias",
 "Marshalling and unmarshalling parameters, signatures and public keys (binary, text, into a buffer) are inverse to each other for every representable value; values that cannot be represented are refused with an error instead of being encoded as something else. A decoded object does not share memory with its input, nor an encoding with its object.",
 ["inputs", "configurations"],
 "all 2^32 parameter headers, every parameter value in a box that exceeds the encodable range on each side, every supported parameter set, boundary sequence numbers",
 "Tests round-trip the registered names and two variants only.",
 ["params.go", "api.go", "misc.go"],
 [("compressed parameters", "params.go WriteInto/UnmarshalBinary"), ("signature and key layout", "api.go WriteInto/UnmarshalBinary"), ("integer encoding", "misc.go encodeUint64Into/decodeUint64")],
 [], ["MarshalBinary, UnmarshalBinary, WriteInto, MarshalText"])

prop("C13", "Names, OIDs, parameters and sizes agree",
 "Every registered name, its OID and its parameters map to one another consistently and match the RFC 8391 and NIST SP 800-208 tables; every parameter set prints as a name that parses back to it; contexts report the same name, OID, origin (RFC/NIST) and sizes however they were created, and a name never yields parameters other than those it spells.",
 ["configurations", "inputs"],
 "all registered instances, all OIDs in a range, every parameter combination in a box, and every name of the name grammar with field values in a range",
 "Tests check String/parse for the registered names but not OIDs, origin, sizes, other names or rejection.",
 ["params.go", "api.go"],
 [("registry and lookup tables", "params.go registry, init"), ("name parser and printer", "params.go parseParamsFromName/String"), ("context constructors", "api.go NewContext*")],
 [], ["Context accessors", "ParamsFromName2, ListNames, ListNames2"])

prop("C14", "The subtree cache is a faithful persistent map",
 "For every sequence of get, drop, list, query, reset and close/reopen operations, the file system container behaves like a map from subtree address to a fixed-size byte buffer: a buffer keeps its contents until it is dropped, also across reopening, buffers of different addresses never overlap, and space of dropped entries is reused rather than growing the file.",
 ["histories", "configurations"],
 "every operation sequence up to a bounded length over three subtree addresses and several parameter sets and page sizes",
 "TestFSContainerCache runs one fixed sequence.",
 ["container.go"],
 [("slot allocation and free list", "container.go GetSubTree/DropSubTree"), ("cache file scanning", "container.go openCache")],
 [("cacheIdxLut/cacheBufLut/cacheFreeIdx", "address to slot, slot to memory, free slots", "container.go fsContainer")],
 ["PrivateKeyContainer interface", "cache file size"])

prop("C15", "A key is open at most once at a time",
 "At any time at most one opener - another process or the same one - has a given private key open; other attempts fail with an error that reports the key as locked, and fail if the lock cannot be taken for any other reason. The lock is released by Close, by a failed open and by the death of its holder, and a stale handle cannot release somebody else's lock.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of open/sign/close/kill steps of two processes and of two handles in one process, and every failure of the locking primitive",
 "No test opens a key twice.",
 ["container.go", "api.go"],
 [("lock file", "container.go OpenFSPrivateKeyContainer/Close")],
 [], ["Error.Locked()", "sequence numbers of signatures made by competing openers"])

prop("C16", "Reservations are accounted for exactly",
 "After a clean Close the reloaded key continues with exactly the next unused sequence number and reports no lost signatures; after an unclean end, the number of skipped sequence numbers is at most the reported number of lost signatures (plus the operation in flight), and the report stays until the number is corrected. BorrowedSeqNos and SeqNo always reflect what was reserved and used.",
 ["histories", "crash_points"],
 "every history of Sign/BorrowExactly/BorrowExactlyIfBelow/Close/Load/kill up to a bounded length",
 "One test closes cleanly once without any reservation.",
 ["api.go", "container.go", "core.go"],
 [("BorrowSeqNos/SetSeqNo/GetSeqNo", "container.go"), ("borrowExactly and Close", "api.go")],
 [("borrowed counters", "reserved numbers in memory and on disk", "api.go, container.go")],
 ["LoadPrivateKey's lostSigs", "SeqNo()", "BorrowedSeqNos()"])

prop("C17", "Finished sequence numbers are retired and their caches dropped",
 "Once all started Sign calls have returned - in whatever order they finished, successfully or not, at whatever sequence number - no sequence number counts as unretired, no subtree lying entirely before the next sequence number is still cached, and every subtree still needed by an unfinished Sign is kept.",
 ["schedules", "histories"],
 "every completion order of 2-3 overlapping Sign calls around subtree boundaries and around 2^32, and sequential histories over whole trees",
 "TestSeqNoRetirement only logs the counters for one schedule.",
 ["core.go", "api.go", "misc.go"],
 [("retired heap and least in use", "core.go retireSeqNo/incLeastSeqNoInUse"), ("heap", "misc.go uint32Heap")],
 [("leastSeqNoInUse, retiredSeqNos", "retirement window", "api.go PrivateKey")],
 ["UnretiredSeqNos()", "CachedSubTrees()", "container ListSubTrees"])

prop("C18", "Close is final and waits for background work",
 "Close returns (no deadlock) also while subtree precomputation runs in the background, waits for unfinished Sign calls, stores the next sequence number, and once it has returned no background activity and no Sign touches the container or its memory. Afterwards Sign and reserving fail with an error, and closing again is harmless.",
 ["schedules"],
 "every interleaving (up to a preemption bound) of Close with background precomputation started by enabling it or by crossing a subtree boundary",
 "No test enables precomputation.",
 ["api.go", "core.go"],
 [("WaitGroup of background workers", "api.go Close/EnableSubTreePrecomputation, core.go getSeqNo")],
 [], ["Close", "container calls after Close"])

prop("C19", "Streaming and in-memory signing agree",
 "Signing or verifying a message from a reader gives the same result as from memory, however the reader splits the message; if the reader fails at any point, an error is returned, no signature or positive verdict is produced, and the sequence number used for the attempt is never issued again.",
 ["inputs", "fault_sequences"],
 "every split of short messages into reads (including empty reads and data together with EOF or an error), every error position, and messages around hash block boundaries",
 "Tests only use Sign and Verify on byte slices.",
 ["api.go", "hash.go"],
 [("streaming message hash", "hash.go hashMessageInto"), ("SignFrom/VerifyFrom", "api.go")],
 [], ["SignFrom, VerifyFrom"])

prop("C20", "A key stops exactly when its sequence numbers run out",
 "For every tree size, every sequence number below the advertised maximum can be used exactly once, in order, by any mixture of plain and reserved signing, with restarts in between; afterwards signing fails with an error - also repeatedly, concurrently and after reloading - and no out-of-range number is ever used.",
 ["histories", "schedules", "configurations"],
 "complete lifetimes of all small trees under different reservation patterns and restart points, and concurrent signers competing for the last numbers",
 "No test gets near the end of a key.",
 ["core.go", "params.go", "api.go"],
 [("exhaustion check", "core.go getSeqNo, newPrivateKey"), ("MaxSignatureSeqNo", "params.go")],
 [], ["Sign errors", "Signature.SeqNo()"])

prop("C21", "Signatures depend only on seeds, sequence number and message",
 "The public key and the signature for a given sequence number and message are the same bytes whatever the history of the key: freshly derived or reloaded, with warm, cold, rebuilt or dropped caches, with or without reservation or subtree precomputation, alone or amid concurrent signers; and whatever the caller does with the seed buffers afterwards.",
 ["histories", "schedules"],
 "every short operation history and every interleaving of bounded concurrent sessions, compared with signatures of a fresh key",
 "Tests compare at most one signature per instance with a vector.",
 ["core.go", "api.go", "container.go"],
 [("deterministic randomisation", "hash.go prfUint64"), ("subtree cache", "core.go getSubTree")],
 [], ["Signature.MarshalBinary", "PublicKey.MarshalBinary"])

prop("C22", "Key creation is all-or-nothing and uses fresh randomness",
 "If creating a key is interrupted at any point, the path afterwards holds either no key, the complete previous key (still signing correctly under its own public key) or the complete new key, never a mixture; an acknowledged key loads with the returned public key and parameters. Generated keys use full-length, independently drawn randomness for each secret, and a failing random source yields an error and no key.",
 ["crash_points", "fault_sequences", "configurations"],
 "every crash point (process kill and power loss) of key creation on an empty path and over an existing key of the same or other parameters; every failing call of the random source",
 "Tests only create keys on empty paths without interruption.",
 ["container.go", "api.go"],
 [("Reset: key file and cache", "container.go Reset"), ("seed generation", "api.go GenerateKeyPair/DeriveInto")],
 [], ["LoadPrivateKey after the crash"])

prop("C23", "Public objects can be used from many goroutines",
 "Contexts, public keys and signatures may be shared: any number of goroutines may concurrently verify with one public key, marshal, compare and query contexts, and derive or sign with independent keys of the same context, without data races and with the same results as when run alone.",
 ["schedules"],
 "every pair of public operations on shared contexts, keys and signatures, in every order of interleaving of their synchronisation operations, under a happens-before race monitor",
 "Tests never share an object between goroutines other than one private key.",
 ["api.go", "params.go", "hash.go"],
 [("scratch pads per call", "core.go newScratchPad"), ("precomputed hashes", "hash.go precomputeHashes"), ("name lookup", "params.go ensureNameAndOidAreSet")],
 [], ["race monitor", "results"])

prop("C24", "Caches of older versions and other page sizes stay usable",
 "A key whose cache file was written by an earlier version (without alignment field), with another alignment, or on a machine with another page size loads, finds its cached subtrees, produces valid signatures, and the cache stays consistent when entries are then added and dropped and the file is reopened.",
 ["configurations", "histories"],
 "cache format versions x alignments x page sizes x parameter sets x short operation histories",
 "No test uses another alignment, page size or format version.",
 ["container.go"],
 [("cache header versions and alignment", "container.go openCache/subTreeOffset/mmapSubTree")],
 [("subTreeAlignment, pageSize", "layout of the cache file", "container.go fsContainer")],
 ["ListSubTrees, GetSubTree, Sign"])

prop("C25", "A damaged or foreign key file is refused or read for what it says",
 "Loading a key file either fails with an error or gives exactly the key the file describes: its parameters, its seeds, its next sequence number and its count of possibly lost signatures, in this session and the next. Files that are empty, cut off, not key files, or of parameters that are not supported are refused, whether there is a cache beside them or not, without panic, hang or memory out of proportion; a refusal leaves the file as it was, no lock and nothing open, so that the right file can be put back and used by the same process. What is left in the temporary file never matters.",
 ["inputs", "configurations"],
 "every byte of the header with every value, every truncation and mixture of key files, every combination of boundary values of the header's fields, every left-over temporary file of a family; with and without cache",
 "Tests only load key files the library has just written.",
 ["container.go", "api.go", "params.go"],
 [("reading the key file", "container.go fsContainer.open"), ("validation of parameters", "api.go NewContext")],
 [("fsKeyHeader", "magic, parameters, next sequence number, borrowed", "container.go")],
 ["LoadPrivateKey", "Sign", "files after the call"])

prop("C26", "Secrets stay in the key file, and files stay private",
 "The secret seeds of a key (the seed of the one-time keys and the PRF key) are only ever written to the key file and the temporary file that replaces it, and once an operation has succeeded only the key file holds them: never the cache or lock file, signatures, public keys, error messages, log messages or output. At every moment, also when calls to the environment fail, every file the library creates is accessible to its owner only.",
 ["histories", "fault_sequences"],
 "every short history of creating, loading, signing, reserving, closing and loading again, with every single call to the environment failing in every way, observed after every change to the file system",
 "Tests do not look at permissions, logs or contents of files, let alone in between two system calls or after failures.",
 ["container.go", "api.go", "core.go", "misc.go"],
 [("creation of files", "container.go writeKeyFile/ResetCache"), ("logging", "misc.go Logf")],
 [], ["files and their modes", "errors", "log", "encodings"])

prop("C27", "Cached and reserved work is not repeated",
 "Each subtree is computed at most once in the life of a key, whatever the history of signing, failing to sign, reserving, closing, loading, kills and concurrent signers, unless its cached copy was lost or damaged, and then only that one is computed again. Loading, signing, reserving and verifying with cached subtrees takes a small fraction of computing a subtree; a cached subtree is checked at most once in a session; with precomputation enabled, entering the next subtree computes nothing once the background work has finished, which Close waits for. While reserved numbers are left, Sign makes no call to the file system other than to the cache.",
 ["histories", "schedules"],
 "every short sequence of signing, failing, reserving, precomputing, verifying, reloading, kills and damaged or dropped subtrees around the ends of subtrees of every layer, and schedules of concurrent signers",
 "Tests compare results, not work; a cache that is never used again after loading, or a subtree that two signers both compute, gives the same signatures.",
 ["core.go", "api.go", "container.go"],
 [("cached subtrees", "core.go getSubTreeFor/newPrivateKey"), ("precomputation", "core.go getSeqNo/precomputeSubTree, api.go EnableSubTreePrecomputation"), ("reservations", "core.go getSeqNo, api.go borrowExactly")],
 [("subTreeReady / subTreeChecked", "which subtrees are cached and checked", "core.go")],
 ["work done by Sign, LoadPrivateKey, Verify", "calls to the file system"])

prop("C28", "Any private key container that keeps the contract will do",
 "With any implementation of PrivateKeyContainer that does what the interface says, and no more, keys behave the same: right signatures, no number used that the container has not recorded, no number reused. Containers are never called by two goroutines at once, nor after Close, nor for subtrees that do not exist, nor is the cache used before ResetCache initialised it; new buffers may contain anything, lists may come in any order, subtrees may be lost between sessions; buffers are not used beyond their length, nor after they are dropped. Loading takes ownership: the container is closed exactly once, by a failed load or by Close; DeriveInto leaves it to the caller if it fails. What GetSeqNo says is what LoadPrivateKeyFrom reports.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "every short history with every kind of permitted container, every single call failing, and all schedules of signers, reservers and closers with scheduling points within the container's calls",
 "Tests only use the container of this package, which is forgiving: its new buffers are zeroed, its methods tolerate overlapping calls, and it is closed once.",
 ["container.go", "api.go", "core.go"],
 [("calls to the container", "api.go, core.go"), ("loading", "api.go LoadPrivateKeyFrom"), ("creating", "api.go DeriveInto")],
 [], ["calls of PrivateKeyContainer's methods", "buffers", "signatures"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
