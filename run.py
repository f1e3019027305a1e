#!/usr/bin/env python3
"""Builds and runs the checks.

  run.py check ID            run the check of property ID (VERIF_SEED, VERIF_TIER)
  run.py replay ID FILE      replay a saved failing case
  run.py build [ID ...]      build only

A check has one or more parts (see checks/registry.py); each part is a binary
built from /repo's working tree that draws cases from a choice sequence
(pbt/pbt.h). Failing cases are shrunk by replaying candidate sequences in
fresh processes and are replayed three times before they are reported.
"""
import array, concurrent.futures as cf, fcntl, glob, hashlib, json, mmap, os, random, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KIO_REPO", "/repo")
BUILD = os.environ.get("KIO_VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
import registry  # noqa: E402

CXX = "/usr/bin/clang++-20"
LD = "/usr/bin/clang++-18"     # only clang 18 ships the sanitizer and libFuzzer run-times
NCPU = os.cpu_count() or 8
MAXCH = 1 << 19
COMMON = ["-std=gnu++23", "-O1", "-g1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE", "-D_GLIBCXX_ASSERTIONS",
          "-DNDEBUG", "-w", "-pthread", "-I" + VERIF, "-I" + VERIF + "/pbt", "-I" + VERIF + "/sim", "-I" + VERIF + "/shim",
          "-I" + REPO, "-include", VERIF + "/shim/kio_shim.h"]
SAN = {
    "asan": (["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function,nonnull-attribute,pointer-overflow"],
             ["-fsanitize=address,undefined"]),
    "tsan": (["-fsanitize=thread"], ["-fsanitize=thread"]),
    "none": ([], []),
    "fuzz": (["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-fno-sanitize=vptr,function,nonnull-attribute,pointer-overflow"],
             ["-fsanitize=address,undefined,fuzzer"]),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        files = []
        for root, dn, fn in os.walk(d):
            dn[:] = [x for x in dn if x not in ("_build", "build", ".git")]
            files += [os.path.join(root, f) for f in fn if os.path.splitext(f)[1] in exts]
        for f in sorted(files):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_hdr = None


def headers_hash():
    global _hdr
    if _hdr is None:
        _hdr = tree_hash([REPO + "/kio", REPO + "/bitcask", VERIF + "/pbt", VERIF + "/sim", VERIF + "/shim", VERIF + "/checks"],
                         {".h", ".hpp", ".inc"})
    return _hdr


def compile_one(src, flags):
    with open(src, "rb") as f:
        key = sha(headers_hash(), f.read(), src, " ".join(flags))[:32]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return None, "compile of %s failed:\n%s" % (src, (r.stderr or r.stdout)[-6000:])
    os.replace(tmp, obj)
    return obj, None


def resolve(src):
    if src.startswith("repo:"):
        return os.path.join(REPO, src[5:])
    return os.path.join(VERIF, src)


def build_parts(parts):
    """Compile and link every part; returns list of binary paths or raises."""
    jobs = {}
    for p in parts:
        cf_, _ = SAN[p.get("san", "asan")]
        for s in p["src"]:
            path = resolve(s)
            fl = COMMON + cf_ + p.get("cflags", [])
            jobs[(path, tuple(fl))] = None
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(compile_one, k[0], list(k[1])) for k in jobs}
        for k, f in futs.items():
            obj, err = f.result()
            if err:
                raise SystemExit("BUILD-ERROR " + err)
            jobs[k] = obj
    bins = []
    for p in parts:
        cf_, lf = SAN[p.get("san", "asan")]
        fl = COMMON + cf_ + p.get("cflags", [])
        objs = [jobs[(resolve(s), tuple(fl))] for s in p["src"]]
        lflags = lf + p.get("ldflags", []) + ["-pthread"]
        key = sha(*objs, *lflags)[:24]
        out = os.path.join(BUILD, "bin", p["name"] + "." + key)
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([LD, "-o", tmp] + objs + lflags, capture_output=True, text=True)
            if r.returncode:
                raise SystemExit("BUILD-ERROR link of %s failed:\n%s" % (p["name"], r.stderr[-6000:]))
            os.replace(tmp, out)
        bins.append(out)
    return bins


def prune(limit=6 << 30):
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in glob.glob(BUILD + "/*/*")if os.path.isfile(f)]
    tot = sum(x[1] for x in fs)
    for m, s, f in sorted(fs):
        if tot <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=6000:handle_abort=1:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99:second_deadlock_stack=1:report_signal_unsafe=0"
    e["ASAN_SYMBOLIZER_PATH"] = "/usr/bin/llvm-symbolizer-18" if os.path.exists("/usr/bin/llvm-symbolizer-18") else ""
    return e


def crash_sig(rc, text):
    """A stable tag for an abnormal end."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan:" + m[1]
    m = re.search(r"runtime error: ([^\n]{0,80})", text)
    if m:
        return "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m[1])
    m = re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", text)
    if m:
        return "tsan:" + m[1].strip().replace(" ", "-")
    m = re.search(r"Assertion '([^']*)' failed", text)
    if m:
        return "assert:" + m[1][:60]
    if "terminate called" in text:
        m = re.search(r"terminate called[^\n]*", text)
        return "terminate:" + m[0][:80]
    return "crash:rc=%d" % rc


class Workdir:
    """A private scratch directory, in shared memory when possible."""

    def __init__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
        self.path = tempfile.mkdtemp(prefix="kiov-", dir=base)

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)


def run_replay(binp, part, choices, wd, tag=""):
    """Replays one choice sequence; returns (failed, signature, text, used)."""
    d = tempfile.mkdtemp(prefix="r", dir=wd)
    fn = os.path.join(d, "choices")
    with open(fn, "w") as f:
        f.write("\n".join(map(str, choices)) + "\n")
    e = env()
    e["KIO_SCRATCH"] = d
    try:
        p = subprocess.Popen([binp, "--replay", fn] + part.get("args", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=part.get("hang_s", 40))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            return True, "hang", out.decode("utf8", "replace") + "\nHANG: case did not finish", None
        text = out.decode("utf8", "replace")
        m = re.search(r"^USED (\d+)$", text, re.M)
        used = int(m[1]) if m else None
        if rc == 0 and "PASS" in text:
            return False, "", text, used
        m = re.search(r"^FAIL ([^:\n]+(?::[^: \n]+)?): ", text, re.M)
        if rc == 10 and m:
            return True, m[1], text, used
        return True, crash_sig(rc, text), text, used
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shrink(binp, part, choices, sig, wd, budget):
    """Greedy parallel shrinking of a choice sequence keeping the signature."""
    t0 = time.time()
    best = list(choices)
    tried = 0
    seen = set()

    def ok(c):
        f, s, _, used = run_replay(binp, part, c, wd)
        return f and s == sig, used

    def candidates(b):
        n = len(b)
        k = n // 2
        while k >= 1:
            for i in range(n - k, -1, -k):
                yield b[:i] + b[i + k:]
                if i >= 1 and k <= 8 and b[i - 1] > 0:   # delete and decrement a preceding count
                    yield b[:i - 1] + [b[i - 1] - 1] + b[i + k:]
            k //= 2
        k = 8
        while k >= 1:
            for i in range(0, n, k):
                if any(b[i:i + k]):
                    yield b[:i] + [0] * len(b[i:i + k]) + b[i + k:]
            k //= 4
        for i in range(n):
            if b[i] > 1:
                yield b[:i] + [b[i] // 2] + b[i + 1:]
                yield b[:i] + [b[i] - 1] + b[i + 1:]

    with cf.ThreadPoolExecutor(NCPU) as ex:
        progress = True
        while progress and time.time() - t0 < budget:
            progress = False
            gen = candidates(best)
            while time.time() - t0 < budget:
                batch = []
                for c in gen:
                    h = sha(",".join(map(str, c)))
                    if h in seen:
                        continue
                    seen.add(h)
                    batch.append(c)
                    if len(batch) >= NCPU:
                        break
                if not batch:
                    break
                res = list(ex.map(ok, batch))
                tried += len(batch)
                hit = [(len(c), i) for i, (c, (r, _)) in enumerate(zip(batch, res)) if r]
                if hit:
                    _, i = min(hit)
                    best = batch[i]
                    used = res[i][1]
                    if used is not None and used < len(best):
                        best = best[:used]
                    progress = True
                    break
    while best and best[-1] == 0:
        best.pop()
    return best, tried


def read_state(path):
    with open(path, "rb") as f:
        n, idx, started, _ = struct.unpack("<4Q", f.read(32))
        a = array.array("Q")
        a.frombytes(f.read(8 * min(n, MAXCH)))
    return n, idx, started, list(a)


def mono_raw_ms():
    return time.clock_gettime(time.CLOCK_MONOTONIC_RAW) * 1000


def run_part(prop, part, binp, seed, tier, wd, known):
    cases = part["cases"][0 if tier == "quick" else 1]
    tlim = part.get("time", (150, 1500))[0 if tier == "quick" else 1]
    shards = part.get("shards", NCPU)
    procs = []
    for i in range(shards):
        d = os.path.join(wd, "%s-%d" % (part["name"], i))
        os.makedirs(d)
        e = env()
        e["KIO_SCRATCH"] = d
        log = open(os.path.join(d, "log"), "wb")
        cmd = [binp, "--seed", str(seed), "--shard", str(i), "--shards", str(shards), "--cases", str(cases),
               "--time", str(tlim), "--out", os.path.join(d, "out.json"), "--state", os.path.join(d, "state")]
        if known:
            cmd += ["--known", ",".join(known)]
        cmd += part.get("args", [])
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=e, cwd=d, start_new_session=True)
        procs.append([p, d, None])
    hang_ms = part.get("hang_s", 40) * 1000
    pending = set(range(shards))
    failure = None
    while pending:
        time.sleep(0.05)
        for i in list(pending):
            p, d, _ = procs[i]
            rc = p.poll()
            if rc is not None:
                pending.discard(i)
                procs[i][2] = rc
                if rc != 0 and failure is None:
                    failure = (i, rc)
                continue
            try:
                with open(os.path.join(d, "state"), "rb") as f:
                    n, idx, started, _ = struct.unpack("<4Q", f.read(32))
                if started and mono_raw_ms() - started > hang_ms:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    pending.discard(i)
                    procs[i][2] = "hang"
                    if failure is None:
                        failure = (i, "hang")
            except (OSError, struct.error):
                pass
        if failure is not None and pending:
            for i in list(pending):
                os.killpg(procs[i][0].pid, signal.SIGKILL)
                procs[i][0].wait()
                pending.discard(i)
    agg = {"evaluations": 0, "nontrivial": 0, "labels": {}, "samples": [], "known": {}, "hashes": set()}
    for p, d, rc in procs:
        try:
            with open(os.path.join(d, "out.json")) as f:
                r = json.load(f, strict=False)
        except (OSError, ValueError):
            continue
        agg["evaluations"] += r["evaluations"]
        agg["nontrivial"] += r["nontrivial"]
        for k in ("labels", "known"):
            for a, b in r[k].items():
                agg[k][a] = agg[k].get(a, 0) + b
        agg["samples"] += r["samples"]
        try:
            a = array.array("Q")
            with open(os.path.join(d, "out.json.hash"), "rb") as f:
                a.frombytes(f.read())
            agg["hashes"].update(a)
        except OSError:
            pass
    fail = None
    if failure is not None:
        i, rc = failure
        d = procs[i][1]
        with open(os.path.join(d, "log"), "rb") as f:
            log = f.read().decode("utf8", "replace")
        n, idx, started, choices = read_state(os.path.join(d, "state"))
        fail = {"rc": rc, "log": log[-8000:], "choices": choices, "idx": idx, "overflow": n > MAXCH, "shard": i}
    return agg, fail


def confirm(prop, part, binp, fail, wd, quick):
    """Replays a failure; returns (verdict, replay file) with verdict 'violation' or 'error'."""
    choices = fail["choices"]
    nd = part.get("nondeterministic", False)
    tries = 20 if nd else 3
    hits = []
    done = 0
    par = 3 if not nd else 2
    with cf.ThreadPoolExecutor(par) as ex:
        while done < tries:
            k = min(par, tries - done)
            for r in ex.map(lambda _: run_replay(binp, part, choices, wd), range(k)):
                if r[0]:
                    hits.append(r)
            done += k
            if nd and len([h for h in hits if h[1] == "hang"]) >= 2:
                break       # each try costs the full time limit
    m = re.search(r"^FAIL ([^:\n]+(?::[^: \n]+)?): [^\n]*", fail["log"], re.M)
    first_sig = m[1] if m else ("hang" if fail["rc"] == "hang" else crash_sig(fail["rc"] if isinstance(fail["rc"], int) else -1, fail["log"]))
    if nd:
        # a definite oracle failure or sanitizer report is evidence by itself; a hang has to recur
        sound = len(hits) >= 2 or (first_sig != "hang" and not first_sig.startswith("crash:rc=-9"))
        shr = len(hits) >= tries - 2 and not any(h[1] == "hang" for h in hits)
    else:
        sound = len(hits) == tries
        shr = sound
    if not sound:
        return "error", None, "failure '%s' did not replay (%d of %d)\n%s" % (first_sig, len(hits), tries, fail["log"][-3000:])
    text = hits[0][2] if hits else fail["log"]
    sig = hits[0][1] if hits else first_sig
    best = choices
    tried = 0
    if shr:
        best, tried = shrink(binp, part, choices, sig, wd, 60 if quick else 180)
        f, s, t, _ = run_replay(binp, part, best, wd)
        if f and s == sig:
            text = t
        else:
            best = choices
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = os.path.join("replays", "%s-%s-%s.txt" % (prop, part["name"], sha(sig, ",".join(map(str, best)))[:10]))
    with open(os.path.join(VERIF, name), "w") as f:
        f.write("# property=%s part=%s signature=%s shrink_attempts=%d choices=%d (originally %d)\n" % (prop, part["name"], sig, tried, len(best), len(choices)))
        for line in text[-6000:].splitlines():
            f.write("# " + line + "\n")
        f.write("\n".join(map(str, best)) + "\n")
    return "violation", name, "signature=%s\n%s" % (sig, text[-3000:])


def known_findings(prop):
    """known-findings.txt: 'KNOWN property=<id> tag=<signature> <text>' / 'fixed: ...'"""
    out = []
    fn = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r"KNOWN property=(\S+) tag=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append((m[2], m[3].strip()))
    return out


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = registry.CHECKS[prop]
    parts = [p for p in spec["parts"] if tier == "thorough" or not p.get("thorough_only")]
    known = known_findings(prop)
    bins = build_parts(parts)
    wd = Workdir()
    viol = []
    total = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "classes": {}, "parts": {}, "known_finding_hits": {}}
    try:
        for p, b in zip(parts, bins):
            if p.get("kind") == "fuzz":
                agg, fail = run_fuzz(prop, p, b, seed, tier, wd.path)
            else:
                agg, fail = run_part(prop, p, b, seed, tier, wd.path, [k for k, _ in known])
            total["evaluations"] += agg["evaluations"]
            total["distinct_nontrivial"] += len(agg["hashes"])
            total["parts"][p["name"]] = {"evaluations": agg["evaluations"], "distinct_nontrivial": len(agg["hashes"])}
            for k, v in agg["labels"].items():
                total["classes"][k] = total["classes"].get(k, 0) + v
            for k, v in agg["known"].items():
                total["known_finding_hits"][k] = total["known_finding_hits"].get(k, 0) + v
            total["samples"] += [p["name"] + ":\n" + s for s in agg["samples"][:3]]
            if fail:
                verdict, path, text = confirm(prop, p, b, fail, wd.path, tier == "quick")
                print(text)
                if verdict == "violation":
                    viol.append(path)
                    break
                # one retry of the part: an environmental failure is not a verdict
                print("RETRY part %s" % p["name"])
                shutil.rmtree(wd.path, ignore_errors=True)
                os.makedirs(wd.path)
                agg, fail = run_part(prop, p, b, seed, tier, wd.path, [k for k, _ in known])
                if fail:
                    verdict, path, text = confirm(prop, p, b, fail, wd.path, tier == "quick")
                    print(text)
                    if verdict == "violation":
                        viol.append(path)
                        break
                    print("ERROR: part %s fails but the failure does not replay" % p["name"])
                    sys.exit(3)
    finally:
        wd.close()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": total,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for tag, text in known:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, text, tag))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (prop, total["evaluations"], total["distinct_nontrivial"], time.time() - t0))
    if viol:
        for v in viol:
            print("VIOLATION property=%s replay=%s" % (prop, v))
        sys.exit(1)
    if total["distinct_nontrivial"] == 0:
        print("ERROR: no non-trivial case was generated")
        sys.exit(3)
    sys.exit(0)


def main():
    cmd = sys.argv[1]
    os.makedirs(BUILD, exist_ok=True)
    if cmd == "check":
        check(sys.argv[2])
    elif cmd == "replay":
        prop, fn = sys.argv[2], sys.argv[3]
        if not os.path.isabs(fn):
            fn = os.path.join(VERIF, fn)
        head = open(fn).readline()
        pn = re.search(r"part=(\S+)", head)[1]
        part = [p for p in registry.CHECKS[prop]["parts"] if p["name"] == pn][0]
        b = build_parts([part])[0]
        wd = Workdir()
        try:
            ch = [int(x) for x in open(fn) if x.strip() and not x.startswith("#")]
            f, s, t, _ = run_replay(b, part, ch, wd.path)
            print(t)
            print("REPLAY", "FAILS " + s if f else "passes")
            sys.exit(1 if f else 0)
        finally:
            wd.close()
    elif cmd == "build":
        ids = sys.argv[2:] or list(registry.CHECKS)
        parts, seen = [], set()
        for i in ids:
            for p in registry.CHECKS[i]["parts"]:
                if p["name"] not in seen:
                    seen.add(p["name"])
                    parts.append(p)
        for b in build_parts(parts):
            print(b)
        prune()
    else:
        raise SystemExit("usage")


if __name__ == "__main__":
    main()
