"""Builds and drives the deterministic simulator (see DESIGN.md)."""
import hashlib, json, os, re, subprocess, sys, tempfile, threading, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = 8
CXX = "g++"
RTFLAGS = "-std=c++17 -O2 -g1 -fno-omit-frame-pointer -fno-strict-aliasing".split()
HFLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fopenmp", "-fsanitize=thread",
          "--param", "tsan-instrument-func-entry-exit=0"]
REDEF = [a for f in ("memcpy", "memmove", "memset", "memcmp") for a in ("--redefine-sym", "%s=simlib_%s" % (f, f))]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            fs = [p]
        else:
            fs = sorted(os.path.join(d, f) for d, _, n in os.walk(p) for f in n)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h


def run_cc(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), "\n".join([l for l in r.stdout.splitlines() if "error" in l or "undefined" in l][:12]) or r.stdout[-3000:]))


def parallel(jobs, n=JOBS):
    """runs thunks, re-raising the first exception"""
    errs = []; lock = threading.Lock(); it = iter(jobs)

    def w():
        while True:
            with lock:
                if errs:
                    return
                try:
                    j = next(it)
                except StopIteration:
                    return
            try:
                j()
            except Exception as e:
                with lock:
                    errs.append(e)
    ts = [threading.Thread(target=w) for _ in range(n)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        raise errs[0]


def sources(prop):
    d = os.path.join(VERIF, "harness")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if re.match(re.escape(prop) + r"[a-z]?\.cpp$", f))


def build(prop, srcs=None):
    """compiles harness/<prop>*.cpp against the working tree of /repo; returns the binary"""
    srcs = srcs or sources(prop)
    if not srcs:
        raise CheckError("no harness for " + prop)
    common = [os.path.join(VERIF, "harness", "common.hpp"), os.path.join(VERIF, "harness", "oracle.hpp")]
    hpps = sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".hpp"))
    h = tree_hash([os.path.join(REPO, "include"), os.path.join(VERIF, "sim")] + hpps + srcs)
    h.update(" ".join(RTFLAGS + HFLAGS + REDEF).encode())
    key = h.hexdigest()[:20]
    d = os.path.join(BUILD, prop)
    out = os.path.join(d, "run-" + key)
    if os.path.exists(out):
        return out
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            os.unlink(p)
    rt = os.path.join(d, "rt.o"); objs = []
    jobs = []

    def one(s, o):
        run_cc([CXX, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "harness")] + HFLAGS + ["-c", s, "-o", o])
        run_cc(["objcopy"] + REDEF + [o])
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + ".o"); objs.append(o)
        jobs.append(lambda s=s, o=o: one(s, o))
    jobs.append(lambda: run_cc([CXX] + RTFLAGS + ["-c", os.path.join(VERIF, "sim", "simrt.cpp"), "-o", rt]))
    parallel(jobs)
    run_cc([CXX, "-no-pie", "-Wl,-z,muldefs"] + objs + [rt, "-o", out + ".tmp", "-ldl"])
    os.rename(out + ".tmp", out)
    for o in objs + [rt]:
        os.unlink(o)
    return out


# ------------------------------------------------------------------ running
def parse(line):
    try:
        return json.loads(line)
    except ValueError:
        return None


def worker(binary, args, on_row, stop=None):
    p = subprocess.Popen([binary] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    err = []
    t = threading.Thread(target=lambda: err.append(p.stderr.read())); t.start()
    stopped = False
    for line in p.stdout:
        r = parse(line)
        if r is not None and on_row(r):
            stopped = True
            break
        if stop is not None and stop.is_set():
            stopped = True
            break
    if stopped:
        import signal
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    p.stdout.close()
    rc = p.wait(); t.join(); p.stderr.close()
    if rc != 0 and not stopped:
        raise CheckError("simulator process ended with %s: %s" % (rc, (err[0] if err else "")[-2000:]))


def run_one(binary, args):
    rows = []
    worker(binary, args, lambda r: rows.append(r) and False)
    if len(rows) != 1:
        raise CheckError("expected one result, got %d" % len(rows))
    return rows[0]


def bad(r):
    return r["st"] in ("violation", "timeout", "died")


def key_of(r):
    if r["st"] == "timeout":
        return "no-progress(wall)"
    if r["st"] == "died":
        return "died"
    return r["key"]


def symbolize(binary, addrs):
    addrs = [a for a in addrs if a not in ("0x0", "0", "")]
    if not addrs:
        return []
    adj = [hex(int(a, 16) - 1) for a in addrs]
    r = subprocess.run(["addr2line", "-Cfe", binary] + adj, stdout=subprocess.PIPE, text=True).stdout.splitlines()
    out = []
    for i in range(0, len(r) - 1, 2):
        fn, loc = r[i], r[i + 1]
        loc = loc.replace(REPO + "/include/", "").split(" ")[0]
        out.append("%s at %s" % (fn[:200], loc))
    return out


def where(binary, r):
    fr = symbolize(binary, r.get("bt", []))
    mine = [f for f in fr if "/usr/" not in f and "??" not in f and "/verif/" not in f]
    return fr, mine


# ------------------------------------------------------------------ shrinking
def read_streams(path):
    t = open(path).read().split()
    scen, seed = t[0], t[1]; pos = 2; s = []
    for _ in range(3):
        n = int(t[pos]); pos += 1
        s.append([int(x) for x in t[pos:pos + n]]); pos += n
    return scen, seed, s


def write_streams(path, scen, seed, s):
    with open(path, "w") as f:
        f.write("%s %s\n" % (scen, seed))
        for x in s:
            f.write("%d\n%s\n" % (len(x), " ".join(map(str, x))))


def trim(s):
    return [strip0(x) for x in s]


def strip0(x):
    n = len(x)
    while n and x[n - 1] == 0:
        n -= 1
    return x[:n]


def minimise(binary, prop, scen, seed, streams, key, tmp, budget, timeout):
    """greedy shrinking of the three decision streams while the same kind of violation persists"""
    t_end = time.time() + budget
    count = [0]; lock = threading.Lock()

    def test(s, tag):
        p = os.path.join(tmp, "c%s.txt" % tag)
        write_streams(p, scen, seed, s)
        with lock:
            count[0] += 1
        d = os.path.join(tmp, "d%s.txt" % tag)
        try:
            r = run_one(binary, ["--prop", prop, "--streams", p, "--dump", d, "--timeout", timeout])
        except CheckError:
            return None
        if bad(r) and key_of(r) == key:
            return trim(read_streams(d)[2])   # what was really consumed
        return None

    def size(s):
        return (sum(len(x) for x in s), sum(sum(x) for x in s))

    best = trim(streams)

    def attempt(cands):
        """first of the candidates (in order) that still fails, tried in parallel; the consumed streams may be shorter"""
        nonlocal best
        i = 0
        while i < len(cands) and time.time() < t_end:
            chunk = cands[i:i + JOBS]; res = [None] * len(chunk)

            def go(k):
                res[k] = test(chunk[k], "%d" % k)
            ts = [threading.Thread(target=go, args=(k,)) for k in range(len(chunk))]
            [t.start() for t in ts]; [t.join() for t in ts]
            for r in res:
                if r is not None and size(r) < size(best):
                    best = r
                    return True
            i += len(chunk)
        return False

    def rep(k, x):
        s = [list(v) for v in best]; s[k] = strip0(x); return s
    for k in (1, 2):
        if best[k]:
            attempt([rep(k, [])])
    improved = True
    while improved and time.time() < t_end:
        improved = False
        for k in (2, 1, 0):
            # cut the tail, remove chunks, zero chunks
            n = max(1, len(best[k]) // 2)
            while n >= 1 and time.time() < t_end:
                again = True
                while again and time.time() < t_end:
                    x = best[k]; again = False
                    pos = list(range(0, len(x), n))
                    if len(pos) > 400:
                        pos = pos[::max(1, len(pos) // 400)]
                    cands = [rep(k, x[:p] + x[p + n:]) for p in reversed(pos)] + [rep(k, x[:p] + [0] * len(x[p:p + n]) + x[p + n:]) for p in pos if any(x[p:p + n])]
                    if cands and attempt(cands):
                        again = improved = True
                n //= 2
            # lower single values
            i = 0
            while i < min(len(best[k]), 300) and time.time() < t_end:
                v = best[k][i]
                if v:
                    c = [rep(k, best[k][:i] + [w] + best[k][i + 1:]) for w in sorted({v // 2, v - 1, min(v - 1, 1)}) if w >= 0]
                    if attempt(c):
                        improved = True
                        continue
                i += 1
    return best, count[0]
