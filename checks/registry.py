"""Which binaries decide which property, and how many cases each tier runs."""

import glob
import os

REPO = os.environ.get("KIO_REPO", "/repo")


def repo(*pats):
    """Sources of the repository, whatever they are called."""
    out = []
    for p in pats:
        out += ["repo:" + os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, p)))]
    return out


RESP = repo("kio/resp/*.cpp")
SIM = ["sim/simuring.cpp"]
CORE = repo("kio/core/*.cpp") + repo("kio/net/*.cpp")
METRICS = repo("kio/metrics/serializer.cpp")
TLS = repo("kio/tls/*.cpp")
BITCASK = repo("bitcask/src/*.cpp")

CHECKS = {
    "C01": {
        "title": "stateful model-based PBT of BytesMut against std::string",
        "rule": "random histories of 1-60 BytesMut calls over buffers of 0-6000 bytes, checked against a std::string after every call; non-trivial = a growth or compaction happened while consumed bytes preceded unread ones",
        "parts": [{"name": "c01_bytes_mut", "src": ["checks/c01_bytes_mut.cpp"], "cases": (800000, 12000000)}],
    },
    "C02": {
        "title": "differential PBT of the RESP parser against a reference grammar",
        "rule": "valid, damaged, over-limit and concatenated RESP3 encodings under random size/depth limits, parsed from an exact-size buffer, with stale bytes behind the data and with further bytes appended; the allowed answers come from an independent reference parser; non-trivial = must-reject input, or an accepted aggregate or payload containing CRLF",
        "parts": [{"name": "c02_resp_accept", "src": ["checks/c02_resp_accept.cpp"] + RESP, "cases": (1200000, 25000000)}],
    },
    "C03": {
        "title": "metamorphic PBT: chunked feeding against the generated frame sequence",
        "rule": "streams of 1-12 valid frames cut into chunks (byte-wise, small, large, around CRLFs) and fed through both buffer interfaces with interleaved draining and compaction; non-trivial = at least two frames and a cut inside a frame",
        "parts": [{"name": "c03_resp_stream", "src": ["checks/c03_resp_stream.cpp"] + RESP, "cases": (300000, 6000000)}],
    },
    "C04": {
        "title": "PBT of frame navigation against the reference tree, hostile bytes under ASan/UBSan",
        "rule": "valid and damaged frames in exact-size heap storage under ASan/UBSan; every accepted frame is walked recursively with FrameIterator and the payload accessors and compared with the reference tree; non-trivial = more than two frames visited, or input that must be rejected",
        "parts": [{"name": "c04_resp_walk", "src": ["checks/c04_resp_walk.cpp"] + RESP, "cases": (1200000, 20000000)}],
    },
    "C05": {
        "title": "model-based PBT, choice-driven interleavings of every atomic access, TSan stress",
        "rule": "histories of pushes and pops over capacities 1-32 against a deque; 1-4 producers and a consumer in fibers with every atomic access a scheduling point chosen by the case (spurious CAS failures included); real threads under ThreadSanitizer; non-trivial = wrap-around, refusal and non-empty destruction (sequential), more than 5 context switches with at least 2 producers (interleaved), at least 2 producers and 20 items (threads)",
        "parts": [
            {"name": "c05_seq", "src": ["checks/c05_seq.cpp"], "cases": (30000, 600000)},
            {"name": "c05_interleave", "src": ["checks/c05_interleave.cpp"], "san": "none", "cases": (300000, 10000000)},
            {"name": "c05_threads", "src": ["checks/c05_threads.cpp"], "san": "tsan", "cases": (1500, 40000), "nondeterministic": True, "shards": 4},
        ],
    },
    "C06": {
        "title": "PBT of the logger: parsed output against the messages each thread logged",
        "rule": "1-4 threads log 0-30 messages per phase (all levels, lengths around and beyond the inline buffer, several format shapes) through 1-3 phases with level changes, ample or tight queues, slow outputs and concurrent flush; the parsed output is compared with the plan; a second part alternates the level between two values that both exclude the message; non-trivial = several threads, more than 5 records and a message over 256 bytes",
        "parts": [
            {"name": "c06_logger", "src": ["checks/c06_logger.cpp"], "cases": (60000, 1000000), "nondeterministic": True},
            {"name": "c06_logger_tsan", "src": ["checks/c06_logger.cpp"], "san": "tsan", "cases": (4000, 80000), "nondeterministic": True},
            {"name": "c06_level", "src": ["checks/c06_level.cpp"], "san": "none", "cases": (400, 4000), "nondeterministic": True, "shards": 4},
        ],
    },
    "C07": {
        "title": "PBT of generated task trees against a recursive evaluation, with live-object accounting",
        "rule": "random trees of up to 40 tasks (results: integer, string, move-only, non-default-constructible, void) that throw, catch, drop, move and move-assign children and hop to other threads; value or exception, per-body run counts and live objects are compared with a recursive evaluation; some cases are chains of 2000-22000 tasks with stack measurement; non-trivial = more than 3 tasks, or a long chain",
        "parts": [
            {"name": "c07_task", "src": ["checks/c07_task.cpp"], "cases": (120000, 3000000)},
            {"name": "c07_task_tsan", "src": ["checks/c07_task.cpp"], "san": "tsan", "cases": (12000, 200000), "nondeterministic": True},
        ],
    },
    "C15": {
        "title": "PBT with an independent exposition-format parser (round-trip)",
        "rule": "1-5 registered collectors contribute families (shared between collectors or not) with generated help texts, label keys and values full of escapes, and values of every magnitude including infinities and NaN, adding samples directly or through references kept across BuildFamily; the scraped text is parsed by the format's rules and compared with the data; non-trivial = more than 2 samples with text needing escapes and a large or fractional value",
        "assumptions": ["metric names are valid and label keys of one sample stay distinct after sanitising", "contributions to one family agree on help and type"],
        "parts": [{"name": "c15_metrics", "src": ["checks/c15_metrics.cpp", "repo:kio/metrics/serializer.cpp"], "cases": (80000, 2000000)}],
    },
    "C18": {
        "title": "round-trip PBT of address literals, resolver replaced by a table",
        "rule": "IPv4 and IPv6 literals in every spelling, names known to a substituted resolver, damaged literals and random bytes, given as views into larger exact-size storage, with any port; non-trivial = must-reject text, or an IPv6 literal, a name, or characters following the view",
        "assumptions": ["getaddrinfo is replaced by a table; the platform's inet_pton is the reference for what a literal is"],
        "parts": [{"name": "c18_resolve", "src": ["checks/c18_resolve.cpp", "repo:kio/net/net.cpp"], "cases": (600000, 15000000)}],
    },
    "C19": {
        "title": "stateful model-based PBT of descriptor owners with recorded close()",
        "rule": "histories of 1-40 constructions, moves, self-moves, releases, closes, resets and destructions over four slots of each owning type, with close() recorded on fake descriptors; non-trivial = more than one move",
        "parts": [{"name": "c19_owners", "src": ["checks/c19_owners.cpp"], "cases": (600000, 15000000)}],
    },
    "C21": {
        "title": "PBT of error mapping, formatting and KIO_TRY propagation against a reference",
        "rule": "error numbers over the system range, the custom ranges and all 32-bit integers against a reference table and strerror; random chains of 1-8 coroutines returning five result types through KIO_TRY with an error injected at a random level; non-trivial = chain of more than 2",
        "parts": [{"name": "c21_errors", "src": ["checks/c21_errors.cpp"], "cases": (300000, 8000000)}],
    },
    "C08": {
        "title": "PBT of operation programs on a worker over a simulated kernel ring",
        "rule": "programs of 1-40 concurrent coroutines (more spawned on completions and handed over by another thread) issue up to 300 operations of 18 kinds with random arguments under random ring depth, slot table size, growth factor and limit; the simulated kernel records every submission, completes in any order and batching with any result; every submission is compared with the caller's arguments and every resumption with the recorded result; non-trivial = more than 3 operations in flight at once, completions out of order, more than 8 operations",
        "parts": [{"name": "c08_ops", "src": ["checks/c08_ops.cpp"] + SIM + CORE + METRICS, "cases": (60000, 1500000)}],
    },
    "C09": {
        "title": "PBT of exact transfers on real files, pipes and sockets with injected short transfers and errors",
        "rule": "one exact read, exact write or splice copy per case on regular files, pipes or sockets; sizes 0-200000, any offset, sources that end early, transfers cut at chosen points, error numbers and zero results injected at chosen transfers, peers that produce and consume in pieces; data, position, error and open descriptors are compared with the plan; non-trivial = at least three transfers, one of them short, of more than 3 bytes",
        "parts": [{"name": "c09_exact", "src": ["checks/c09_exact.cpp"] + SIM + CORE + METRICS, "cases": (60000, 1500000)}],
    },
    "C10": {
        "title": "PBT of hand-offs: choice-driven interleavings, simulated kernel, TSan stress",
        "rule": "1-4 producers hand up to 13 coroutines each to a worker (directly or from within tasks, queue capacities 1-1024, ring depths 1-1024, never more waiting than the queue holds) while it is idle, sleeping or busy; producers and worker run in fibers posing as threads that switch at every atomic access of the queue and around the wake-up write; a second part hands over from a real second thread under ASan, a third runs several workers and threads under TSan; non-trivial = at least two producers, more than 3 hand-offs and (interleaved) more than 4 context switches",
        "parts": [
            {"name": "c10_interleave", "src": ["checks/c10_handoff.cpp"] + SIM + CORE + METRICS, "san": "none", "cflags": ["-DWITH_FIBERS", "-include", "sim/queue_atomic.h"], "cases": (100000, 5000000)},
            {"name": "c10_threads", "src": ["checks/c10_threads.cpp"] + SIM + CORE + METRICS, "san": "tsan", "cases": (1500, 60000), "nondeterministic": True, "shards": 4},
            {"name": "c10_asan", "src": ["checks/c10_handoff.cpp"] + SIM + CORE + METRICS, "cases": (40000, 1000000)},
        ],
    },
    "C11": {
        "title": "PBT of lifecycle histories with injected start-up failures, over a simulated kernel",
        "rule": "pools of 1-4 workers and single workers through generated call sequences (use, pending operations, stop zero to three times, from several threads, before the start, never started) with at most one fault: ring creation, any ring entry, start-up callback throwing, old kernel, thread creation; and generated valid and invalid configurations; non-trivial = a fault, repeated or early stops, or an invalid configuration",
        "parts": [
            {"name": "c11_lifecycle", "src": ["checks/c11_lifecycle.cpp"] + SIM + CORE + METRICS, "cases": (12000, 300000), "nondeterministic": True, "hang_s": 10},
        ],
    },
    "C12": {
        "title": "PBT of baton rounds: choice-driven interleavings of every atomic access, simulated time, TSan stress",
        "rule": "1-6 rounds of wait or timed wait (durations 0 ns to 1 h) with 0-3 notifiers each (other threads, coroutines on the worker, aligned with the deadline), batons reused after reset or replaced; interleavings: worker and notifiers run in fibers and every atomic access of the baton is a scheduling point; another part makes the calls from a second thread at chosen moments under ASan; non-trivial = several rounds with notifiers and more than 4 context switches (interleaved), several completed waits with notifiers (ASan)",
        "parts": [
            {"name": "c12_interleave", "src": ["checks/c12_baton.cpp"] + SIM + CORE + METRICS, "san": "none", "cflags": ["-DWITH_FIBERS"], "cases": (150000, 5000000)},
            {"name": "c12_threads", "src": ["checks/c12_threads.cpp"] + SIM + CORE + METRICS, "san": "tsan", "cases": (1500, 40000), "nondeterministic": True, "shards": 4},
            {"name": "c12_asan", "src": ["checks/c12_baton.cpp"] + SIM + CORE + METRICS, "cases": (40000, 1000000)},
        ],
    },
    "C13": {
        "title": "PBT of event rounds: choice-driven interleavings of every atomic access, simulated time, TSan stress",
        "rule": "1-5 notify/reset rounds of 0-12 waiters (coroutines on the worker or started on other threads, some waiting several times) and 1-3 notifiers; interleaved in fibers at every atomic access, called from a second thread under ASan, and with real threads under TSan where waiters check what the notifier wrote; non-trivial = at least two waiters of a round suspended before the notification (interleaved, ASan), several threads, rounds and more than 5 waiters (threads)",
        "parts": [
            {"name": "c13_interleave", "src": ["checks/c13_event.cpp"] + SIM + CORE + METRICS, "san": "none", "cflags": ["-DWITH_FIBERS"], "cases": (100000, 5000000)},
            {"name": "c13_threads", "src": ["checks/c13_threads.cpp"] + SIM + CORE + METRICS, "san": "tsan", "cases": (1000, 40000), "nondeterministic": True, "shards": 4},
            {"name": "c13_asan", "src": ["checks/c13_event.cpp"] + SIM + CORE + METRICS, "cases": (40000, 1000000)},
        ],
    },
    "C14": {
        "title": "PBT of when_any programs under simulated time; TSan stress over several workers",
        "rule": "1-4 concurrent when_any calls over 1-7 tasks each, tasks being generated sequences of sleeps, nested tasks, batons, nested when_any, ending by a value or an exception, awaited at once or stored first; with real workers under TSan tasks finish on different threads; non-trivial = a call returned while tasks were still running (simulated), several workers and more than 3 tasks (threads)",
        "parts": [
            {"name": "c14_threads", "src": ["checks/c14_threads.cpp"] + SIM + CORE + METRICS, "san": "tsan", "cases": (1000, 40000), "nondeterministic": True, "shards": 4},
            {"name": "c14_any", "src": ["checks/c14_any.cpp"] + SIM + CORE + METRICS, "cases": (60000, 2000000)},
        ],
    },
    "C17": {
        "title": "PBT of the metrics HTTP server with generated clients over loopback, against a request-by-request model",
        "rule": "1-8 concurrent clients send generated requests (valid, odd, malformed, padded around the size limit, unfinished) cut into any segments, interleaved, some with small receive windows, and read, half-close, close early or reset; the server's transfers are shortened and delayed in part of the cases, and part of the cases give it fewer operation slots than clients; every answer is compared with the model and the current exposition, then one more client must be served and the server must shut down; non-trivial = 3 or more clients, 2 or more answered",
        "parts": [
            {"name": "c17_http", "src": ["checks/c17_http.cpp"] + SIM + CORE + METRICS + repo("kio/metrics/server.cpp"), "cases": (6000, 100000), "nondeterministic": True, "hang_s": 90},
        ],
    },
    "C32": {
        "title": "PBT of socket set-up with failing system calls against plain calls, and of connect/accept over worker threads",
        "rule": "up to 12 attempts per case to listen on generated addresses, ports (free, shared, held by others) and backlogs, a third with one kind of system call failing, compared with the same plain calls and then connected to; and up to 8 clients connecting and accepted through 1-3 workers with good and bad descriptors, addresses and injected errors; non-trivial = at least one listener and one refusal (listen), several connections and one error (connect)",
        "parts": [
            {"name": "c32_listen", "src": ["checks/c32_listen.cpp"] + SIM + CORE, "cases": (20000, 400000)},
            {"name": "c32_connect", "src": ["checks/c32_connect.cpp"] + SIM + CORE, "cases": (6000, 100000), "nondeterministic": True, "hang_s": 60},
        ],
    },
    "C22": {
        "title": "round-trip PBT of the entry codec, damaged and arbitrary bytes in exact-size storage under ASan",
        "rule": "1-6 data or hint entries with any flags, timestamps and key and value sizes around every width boundary, encoded, concatenated, followed by other bytes, cut anywhere, with 1-3 altered bytes, and arbitrary bytes behind plausible headers; decoded from exact-size heap storage and compared with the entry, the documented layout and an independent CRC-32C; non-trivial = several entries, or a cut, damaged or arbitrary input",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c22_codec", "src": ["checks/c22_codec.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (300000, 12000000)}],
    },
    "C23": {
        "title": "model-based PBT of a key-value partition against a map, over a simulated ring",
        "rule": "1-3 worker sessions of up to 50 operations each (put, get, delete, sync, compact, pause, close and reopen) over 1-12 keys (empty, binary, long) with values of 0 bytes to 2 MB, file-size limits from 1 byte, any buffer sizes, thresholds, cache limits, background compaction and flushing on or off, the calendar clock standing still or going back, legal short transfers; every get is compared with a map and all keys are audited after every compaction and reopen; non-trivial = at least one rotation, one compaction, one reopen and more than 10 operations",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c23_kv", "src": ["checks/c23_kv.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (6000, 300000), "hang_s": 60}],
    },
    "C24": {
        "title": "crash-injection PBT of a key-value partition: stop at any storage operation, torn writes, loss of unflushed data, reopen and audit",
        "rule": "2-4 sessions on one directory; in each, 1-4 clients with disjoint keys put, delete, read, sync, compact and pause while background compaction and flushing run, and the process stops at a chosen storage operation (done, not done, or done in part; other accepted operations done, undone or torn at random), with sync-on-write optionally losing any subset of the unflushed changes and any suffix of the file removals; after each reopen every key is read and must have the acknowledged or an in-flight value; non-trivial = at least one crash after more than 3 acknowledged updates with a rotation or compaction",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout", "flushing a file makes its name durable, and removals reach the disk in order, as on a journaling file system"],
        "parts": [{"name": "c24_crash", "src": ["checks/c24_crash.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (12000, 600000), "hang_s": 60}],
    },
    "C25": {
        "title": "damage PBT of a key-value partition: alter, cut, extend or remove its files, reopen under ASan, audit against the history",
        "rule": "a history of up to 60 puts, deletes and compactions in 1-2 sessions leaves data and hint files; 1-3 damages (truncation, bit flip, overwritten range, hostile length field, junk or entry-like bytes appended, file lost; foreign files added in a quarter of the cases) are applied; the partition is then opened, audited, used for up to 15 operations and reopened; values must be ones written for the key, and exact for keys none of whose entries (found by an independent parser) lies at or behind the first damaged byte of its file; non-trivial = at least one damage after more than 3 puts",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c25_damage", "src": ["checks/c25_damage.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (12000, 600000), "hang_s": 60}],
    },
    "C26": {
        "title": "concurrent-history PBT of a key-value partition with per-key linearizability checking over a reordering ring",
        "rule": "1-2 sessions of 1-7 client coroutines with 1-9 operations each (put, get, delete, compact, sync, pause, sometimes closing under the others) on 1-4 keys, tiny files and caches, background compaction, completions in any order chosen by the case; each key's history, with the reads after everything has completed and after each reopen, is checked by exhaustive search for a linearization of uniquely valued operations; non-trivial = more than 2 overlapping updates, more than 8 operations and a rotation or compaction",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c26_linear", "src": ["checks/c26_linear.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (15000, 600000), "hang_s": 60}],
    },
    "C27": {
        "title": "PBT of compaction and statistics against an independent reading of the store's files and the history",
        "rule": "1-4 sessions of 1-5 rounds; in each round 1-4 concurrent clients do up to 13 operations, then, with everything at rest, every per-file and operation statistic is compared with the files (read by an independent parser) and the history, and in half of the rounds a compaction runs alone: the files at or above the threshold must be gone with their hints, the others unchanged, and the new file must hold each of their live entries exactly once and nothing dead; non-trivial = at least one file merged by a compaction at rest",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c27_accounts", "src": ["checks/c27_accounts.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (8000, 400000), "hang_s": 60}],
    },
    "C28": {
        "title": "model-based PBT of the multi-partition store on real worker threads, with hostile manifests, configurations and set-up failures",
        "rule": "1-4 sessions over one directory with 1-17 partitions; before each, up to 2 opens that must be refused (altered, cut, extended or foreign manifest, another partition count, invalid configuration, a directory that cannot be made, a ring or a partition's files that cannot be opened); then 1-4 driver threads with keys of their own run up to 25 operations each (put, get, delete, sync, compact, sometimes close under the others), the store is audited, closed and reopened; every key must live in one partition only; non-trivial = several sessions and partitions used, more than 5 puts and some hits",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c28_bitkv", "src": ["checks/c28_bitkv.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (3000, 100000), "hang_s": 60, "nondeterministic": True}],
    },
    "C29": {
        "title": "model-based PBT of the descriptor cache and of a partition reading through a small one, with the set of open descriptors known",
        "rule": "cache: 1-6 clients with up to 40 operations each (look up, keep or drop the handle, read through it, remove, clear, replace or delete the file) on 1-7 files with a limit of 0-100, completions in any order, opens and reads failing in a third of the cases; one client alone is compared with an exact LRU model; partition: 1-5 clients with keys of their own read, write, delete and compact over tiny files with a limit of 0-5, open data files are counted whenever all is at rest; non-trivial = more than 4 lookups with an eviction or overlapping lookups (cache), more than 8 gets with overlaps over more files than the limit (partition)",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [
            {"name": "c29_cache", "src": ["checks/c29_cache.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (40000, 1500000), "hang_s": 60},
            {"name": "c29_partition", "src": ["checks/c29_partition.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (6000, 300000), "hang_s": 60},
        ],
    },
    "C31": {
        "title": "fault-injection PBT of a key-value partition: storage operations fail or fall short at chosen points, histories are judged against what was acknowledged",
        "rule": "2-4 sessions on one directory with 1-3 clients of up to 30 operations (put, get, delete, compact, sync, pause) and a fault plan each (none, at random, single or burst at a position, one kind of operation, one kind of file, disk full; short transfers, short followed by a failure), opening and closing included; a call may fail only if a storage operation failed meanwhile, an acknowledged update must read back then and after reopening, a failed one leaves the old or the new value; the last session looks at everything without faults; non-trivial = at least one call failed, and more than 3 puts were acknowledged",
        "assumptions": ["struct_pack and crc32c are stand-ins in /verif/shim with the originals' interface and layout"],
        "parts": [{"name": "c31_faults", "src": ["checks/c31_faults.cpp"] + SIM + CORE + METRICS + BITCASK, "cases": (12000, 600000), "hang_s": 60}],
    },
    "C30": {
        "title": "PBT of TLS streams against hostile peers with a wire tap and a stand-in for kernel offload; configuration matrix for contexts",
        "rule": "streams in both roles over socket pairs and loopback (TlsListener, TlsConnector) against an OpenSSL peer whose bytes may be flipped, cut, dropped, duplicated, silenced or mixed with plaintext, garbage and forged records; offload available, unavailable or in one direction only; incompatible versions and ciphers, untrusted peers, failing polls, stops at any decision; reads, writes, sendfile, shutdown, moves and repeated handshakes before and after. Every byte on the wire must belong to a TLS record and contain no payload; without an established offloaded session every transfer must be refused and add nothing to the wire. Contexts from random combinations of usable and unusable files, trust stores, ciphers and protocol lists: refused exactly for a reason that is present, otherwise holding what was configured. Non-trivial = a transfer was refused, an established stream met damage, or more than two transfers succeeded (streams); exactly one thing wrong, or an identity or trust store configured (contexts)",
        "assumptions": ["the kernel's TLS record layer is replaced by a stand-in behind setsockopt, read, write, recvmsg, sendmsg, splice and poll (TLS 1.2, AES-GCM and ChaCha20-Poly1305): the sandbox's kernel has none", "OpenSSL's own cryptography is trusted; its randomness is fixed by the case"],
        "parts": [
            {"name": "c30_stream", "src": ["checks/c30_stream.cpp"] + SIM + CORE + TLS, "ldflags": ["-lssl", "-lcrypto"], "cases": (14000, 600000)},
            {"name": "c30_context", "src": ["checks/c30_context.cpp"] + SIM + CORE + TLS, "ldflags": ["-lssl", "-lcrypto"], "cases": (15000, 600000)},
        ],
    },
    "C33": {
        "title": "PBT of TLS sessions against an OpenSSL peer: identities, names, and data both ways",
        "rule": "peers with good, chained, expired, not yet valid, untrusted, self-signed and otherwise named certificates (or none), trust stores of several kinds, host names exact, wildcard, numeric and wrong, verification on and off, both roles, over socket pairs and loopback; the handshake must succeed exactly if the configuration accepts the peer; then writes of all kinds, sendfile, reads of up to 60000 bytes cut into records of any size under short transfers, moves, and a close whose peer may or may not answer. Non-trivial = the peer must be refused, or more than two transfers succeeded with more than 16384 bytes in one direction",
        "assumptions": ["the kernel's TLS record layer is replaced by a stand-in, as in C30", "OpenSSL's X509_check_host and X509_check_ip are the reference for whether a certificate bears a name"],
        "parts": [
            {"name": "c33_tls", "src": ["checks/c33_tls.cpp"] + SIM + CORE + TLS, "ldflags": ["-lssl", "-lcrypto"], "cases": (20000, 600000)},
        ],
    },
    "C20": {
        "title": "model-based PBT of the file manager against plain system calls on a mirrored directory tree",
        "rule": "1-4 driver threads run up to 30 steps each (open with any flags by any spelling of a path, positional read and write, close, move between handles, unlink, switching worker) over 1-2 managers of 1-5 workers, a third of the cases with short transfers; every result is compared with the plain call on a mirror tree, and the threads submitting each file's operations are recorded; non-trivial = several files on several workers with opens, reads and writes",
        "parts": [
            {"name": "c20_files", "src": ["checks/c20_files.cpp"] + SIM + CORE + repo("kio/fs/*.cpp"), "cases": (6000, 200000), "nondeterministic": True},
        ],
    },
    "C16": {
        "title": "PBT of worker counters against the results the simulated kernel gave, and of scrapes over several workers",
        "rule": "1-13 concurrent coroutines issue up to 12 operations each (plain, exact, vectored, accept, connect, open, splice transfers) whose results are full, short or errors chosen by the case; counters are compared with the sums of the results while running and at the end; a second part runs 1-5 worker threads with random file operations and scrapes meanwhile; non-trivial = more than 5 operations with failures and short transfers (counters), several workers, more than 8 operations and concurrent scrapes (scrapes)",
        "parts": [
            {"name": "c16_stats", "src": ["checks/c16_stats.cpp"] + SIM + CORE + METRICS, "cases": (80000, 2000000)},
            {"name": "c16_scrape", "src": ["checks/c16_scrape.cpp"] + SIM + CORE + METRICS, "cases": (6000, 100000), "nondeterministic": True},
        ],
    },
}

NOT_CLAIMED = {}
