"""Runs recorded calls on the real build and judges the results with an independent oracle."""
import json, math, os, struct, subprocess
from fractions import Fraction
import oracle

ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "ASAN_OPTIONS": "detect_leaks=0:exitcode=66"}


def num(s):
    """recorded number -> double"""
    if isinstance(s, (int, float)):
        return float(s)
    if s.startswith("bits:"):
        return struct.unpack(">d", bytes.fromhex(s[5:]))[0]
    if s in ("inf", "-inf"):
        return float(s)
    if "0x" in s:
        return float.fromhex(s)
    return float(Fraction(s))


def bits(x):
    if isinstance(x, str) and x.startswith("bits:"):
        return x[5:]
    return struct.pack(">d", num(x)).hex()


def unbits(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def vec(v):
    return "%d %s" % (len(v), " ".join(bits(x) for x in v))


def isnan(x):
    return x != x


def close(a, b, tol):
    if math.isnan(a) or math.isinf(a):
        return False
    return abs(a - b) <= tol


def growth(op):
    """two sizes at which the running time is measured, and the factor that is too much growth"""
    n, m = (512, 2048) if op == 0 else (1024, 8192) if op < 4 else (512, 4096)
    return n, m, (m / n) ** (3 if op == 0 else 2) * (1.7 if op == 1 else 1.4)


ONE = ("ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B")


def encode(c):
    f = c["fn"]
    if f == "ecdf2":
        return "ecdf2 %d %s %s" % (c["fft"], vec(c["b"]), vec(c["B"]))
    if f in ONE:
        return "%s %s" % (f, vec(c["b"] if f.endswith("b") else c["B"]))
    if f == "check":
        return "check v %d %s" % (c["n"], vec(c["v"]))
    if f == "convolve":
        return "convolve %d %d %d %s %s" % (c["max"], c["size"], c["off"], vec(c["a"]), vec(c["b"]))
    if f == "convolve_size":
        return "convolve_size %d %d" % (s32(c["max"]), s32(c["size"]))
    if f in ("pmf_array", "pmf_held", "pmf_single"):
        return "%s %d %d %s" % (f, c["max_k"], c["k"], bits(c["lambda"][0]))
    if f == "repeat":
        return "repeat %d %d %d %s %s %s" % (c["op"], c["max"], c["size"], vec(c["b"]), vec(c["B"]), hexs(c["text"]))
    if f == "growth":
        return "growth %d %d %d %d %s %d %d %g" % (c["op"], c["w"], c["v"], c["g"], vec(c["shift"]), *growth(c["op"]))
    if f in ("line", "double", "long"):
        return "%s %s" % (f, hexs(c["text"]))
    if f == "split":
        return "split %s %s" % (hexs(c["text"]), hexs(c["delimiter"]))
    if f == "rng_init":
        return "rng_init %d %d %d %d" % tuple(u64(c[k]) for k in ("mat1", "mat2", "tmat", "seed"))
    if f == "rng_array":
        k = [u64(c["key%d" % i]) for i in range(c["n"])]
        return "rng_array %d %d %d %d %s" % (u64(c["mat1"]), u64(c["mat2"]), u64(c["tmat"]), len(k), " ".join(map(str, k)))
    if f == "rng_step":
        return "rng_step %d %d %d %d %d" % tuple(u64(c[k]) for k in ("s0", "s1", "mat1", "mat2", "tmat"))
    raise KeyError(f)


def s32(x):
    return (int(x) + (1 << 31)) % (1 << 32) - (1 << 31)


def u64(x):
    return int(x) & 0xFFFFFFFFFFFFFFFF


def hexs(s):
    return s.encode("latin-1").hex() or "-"


def poisson(l, k):
    if l == 0:
        return 1.0 if k == 0 else 0.0
    return math.exp(-l + k * math.log(l) - math.lgamma(k + 1))


def judge(c, line, loose):
    """None if the real result is right, otherwise what is wrong with it"""
    f = c["fn"]
    threw = line.startswith("!")
    out = line[1:].split()
    if f == "ecdf2" or f in ONE:
        if f == "ecdf2":
            b, B = [num(x) for x in c["b"]], [num(x) for x in c["B"]]
            ok = len(b) == len(B) and oracle.valid(b) and oracle.valid(B)
        else:
            v = [num(x) for x in (c["b"] if f.endswith("b") else c["B"])]
            ok = oracle.valid(v)
            b, B = (v, [1.0] * len(v)) if f.endswith("b") else ([0.0] * len(v), v)
        if not ok:
            return None if threw else "invalid boundaries accepted, returned %r" % unbits(out[0])
        if loose == math.inf:
            return None  # only crashes matter
        if threw:
            return "exception on valid boundaries: " + bytes.fromhex(out[0].replace("-", "")).decode("latin-1")
        want, got = oracle.prob(b, B), unbits(out[0])
        tol = loose if loose else (1e-10 if len(b) <= 40 else 1e-8)
        return None if close(got, want, tol) else "returned %r, expected %r" % (got, want)
    if f == "check":
        v = [num(x) for x in c["v"]]
        ok = len(v) == c["n"] and oracle.valid(v)
        return None if ok != threw else ("valid vector rejected" if ok else "invalid vector accepted")
    if f == "convolve":
        n = c["size"]
        if n > c["max"]:
            return None if threw else "size above the declared maximum accepted"
        if threw:
            return "exception on a permitted size"
        if out and out[0] in ("before", "after", "inputs"):
            return {"before": "wrote before the output", "after": "wrote past the requested size", "inputs": "modified its inputs"}[out[0]]
        a, b = [num(x) for x in c["a"]], [num(x) for x in c["b"]]
        na, nb = [i for i in range(n) if a[i]], [i for i in range(n) if b[i]]
        want = [0.0] * n
        for i in na:
            for j in nb:
                if i + j < n:
                    want[i + j] += a[i] * b[j]
        scale = max([1.0] + [abs(x) for x in a]) * max([1.0] + [abs(x) for x in b]) * max(1, min(len(na), len(nb)))
        for i in range(n):
            if not close(unbits(out[i]), want[i], 1e-9 * scale):
                return "entry %d is %r, expected %r" % (i, unbits(out[i]), want[i])
        return None
    if f == "repeat":
        left = unbits(out[0]), unbits(out[1])
        return "repeating the call leaves %g bytes and %g open files behind each time" % left if left[0] >= 8 or left[1] > 0.5 else None
    if f == "growth":
        n, m, limit = growth(c["op"])
        r, k = m / n, unbits(out[1]) / max(unbits(out[0]), 1e-9)
        if int(out[2]) > 3 * int(out[3]) + 4:
            return "a call with %d bounds makes %s plans for %s transforms" % (n, out[2], out[3])
        return "with %d bounds it takes %.1f times as long as with %d (%.4f s), documented growth is %.0f" % (m, k, n, unbits(out[0]), r ** 3 if c["op"] == 0 else r * r * math.log(m) / math.log(n) if c["op"] == 1 else r * r) if k > limit else None
    if f == "convolve_size":
        if s32(c["size"]) > s32(c["max"]):
            return None if threw else "size above the declared maximum accepted"
        if threw:
            return "exception on a permitted size"
        return None if unbits(out[0]) <= 1e-5 else "off by %r for all-ones vectors" % unbits(out[0])
    if f in ("pmf_array", "pmf_held"):
        l = num(c["lambda"][0])
        if l < 0:
            return None if threw else "negative intensity accepted"
        if threw:
            return "exception on a valid intensity"
        for i in range(c["k"] + 1):
            if not close(unbits(out[i]), poisson(l, i), 1e-9):
                return "entry %d is %r, expected %r" % (i, unbits(out[i]), poisson(l, i))
        return None
    if f == "pmf_single":
        w = poisson(num(c["lambda"][0]), c["k"])
        if threw:
            return "exception on a valid intensity"
        for x in out:
            if not close(unbits(x), w, 1e-9):
                return "value %r, expected %r" % (unbits(x), w)
        return None
    import judge_int
    return judge_int.judge(c, line)


def run_driver(prog, calls, perturb):
    env = dict(ENV)
    if perturb:
        env["MALLOC_PERTURB_"] = str(perturb)
    try:
        r = subprocess.run([prog], input="\n".join(encode(c) for c in calls) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=60)
    except subprocess.TimeoutExpired:
        return [], "timeout"
    err = None
    if r.returncode:
        err = "signal %d" % -r.returncode if r.returncode < 0 else "exit status %d" % r.returncode
        tail = [l for l in r.stderr.splitlines() if "rror" in l or "ssert" in l]
        if tail:
            err += ": " + tail[0][-300:]
    return r.stdout.splitlines(), err


def scalar_lines(text):
    n = []
    for l in text.splitlines():
        try:
            n.append(float(l))
        except ValueError:
            pass
    return n


def write_bounds(path, b, B, style, bad=0):
    def line(v):
        s = ""
        for i, x in enumerate(v):
            if i:
                s += "," if style == 1 else " ," if style == 5 else ", "
            elif style == 2:
                s += "  "
            s += " " * (300 if style == 4 else 1 if style == 5 else 0) + repr(x)
        if style == 2 and v:
            s += ","
        return s + "\n"
    with open(path, "w") as f:
        x, y = line(b), line(B)
        t = {0: x + y, 1: "", 2: x, 3: x[:-1], 4: "# boundaries\n" + x + y, 5: x + "none\n", 6: "x, " + x + y, 7: x[:-1] + ", nothing\n" + y}[bad]
        f.write(t[:-1] if style == 3 and B else t)


def judge_cli(real, tmp, c, loose=None):
    b, B = [num(x) for x in c["b"]], [num(x) for x in c["B"]]
    path = tmp + "/replay-bounds.txt"
    if c["missing"]:
        path += ".does-not-exist"
    else:
        write_bounds(path, b, B, c["style"], c.get("bad", 0))
    args = [real.program("crossprob.cc")]
    if c["argc"] > 1:
        args.append(c["alg"])
    if c["argc"] > 2:
        args.append(path)
    args += ["extra"] * max(0, c["argc"] - 3)
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout"
    nums = scalar_lines(r.stdout)
    if c["argc"] != 3:
        return None if r.returncode > 0 and not nums else "exit status %d, printed %r" % (r.returncode, nums)
    n = max(len(b), len(B))
    if c["alg"] in ("ecdf2-ks2001", "ecdf2-mn2017"):
        shape = len(b) == len(B) or not b or not B
    else:
        shape = c["alg"] in ("ecdf1-mns2016", "ecdf1-new") and (not b) != (not B)
    if c["missing"] or c.get("bad") or not shape or not (oracle.valid(b) and oracle.valid(B)):
        return None if r.returncode > 0 and not nums else "error case: exit status %d, printed %r" % (r.returncode, nums)
    want = oracle.prob(b or [0.0] * n, B or [1.0] * n)
    if r.returncode or len(r.stdout.splitlines()) != 1 or len(nums) != 1:
        return "exit status %d, printed %r %s" % (r.returncode, r.stdout[:200], r.stderr[:200])
    return None if close(nums[0], want, 1e-9 + 1e-5 * abs(want)) else "printed %r, expected %r" % (nums[0], want)


def judge_mc(real, tmp, c, loose=None):
    b, B, sims = [num(x) for x in c["b"]], [num(x) for x in c["B"]], c["sims"]
    logs = [num(x) for x in c["logs"]]
    n, path, dr = max(len(b), len(B)), tmp + "/replay-bounds.txt", tmp + "/replay-draws.txt"
    write_bounds(path, b, B, 0)
    with open(dr, "w") as f:
        f.write("\n".join((-1e300 if math.isinf(x) else x).hex() for x in logs) + "\n")
    try:
        r = subprocess.run([real.mc_shim(), c["mode"], path, str(sims)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=dict(ENV, CROSSPROB_DRAWS=dr), timeout=120)
    except subprocess.TimeoutExpired:
        return "timeout"
    if r.returncode in (78, 79):
        return r.stderr.strip()
    nums = scalar_lines(r.stdout)
    if r.returncode == 77:
        return "asked for more than the %d draws of its simulations" % len(logs)
    if r.returncode or len(nums) != 1 or len(r.stdout.splitlines()) != 1:
        return "exit status %d, printed %r" % (r.returncode, r.stdout[:200])
    # a draw of 0 has no logarithm: it is drawn again, or its spacing is taken as 0
    bad = None
    for zero in ([], [0.0]) if any(math.isinf(x) for x in logs) else ([],):
        bad = mc_outcome(c["mode"], b, B, sims, [y for x in logs for y in (zero if math.isinf(x) else [x])], nums[0])
        if bad is None:
            return None
    return bad


def mc_outcome(mode, b, B, sims, logs, printed):
    n, pos, low, high = max(len(b), len(B)), 0, 0, 0
    logs = [math.log(math.exp(x)) if x > -700 else x for x in logs]
    if b and len(b) < n:
        return None if abs(printed) <= 2e-6 else "printed %r, expected 0" % printed
    for s in range(sims):
        x, t = [], 0.0
        if mode == "ecdf":
            if pos + n + 1 > len(logs):
                return "used %d draws for %d simulations of %d points" % (len(logs), sims, n)
            for i in range(n):
                t -= logs[pos]
                pos += 1
                x.append(t)
            scale = t - logs[pos]
            pos += 1
        else:
            scale = float(n)
            while True:
                if pos >= len(logs):
                    return "a simulation ended before the end of the interval"
                t -= logs[pos]
                pos += 1
                if abs(t - scale) <= 1e-12 * scale and not (t == scale and n & (n - 1) == 0):
                    return None  # the end of the interval, within rounding
                if t > scale:
                    break
                x.append(t)
                if b and len(x) > len(b):
                    break
        # evaluated in several ways: a tie that depends on rounding decides nothing
        crossings = set()
        for f in (lambda u: (u / scale if scale else math.nan, 1.0), lambda u: (u * (1.0 / scale) if scale else math.nan, 1.0), lambda u: (u, scale)):
            y = [f(u) for u in x]
            crossings.add(len(x) < len(B) or any(u > v * k for (u, k), v in zip(y, B)) or (bool(b) and len(x) > len(b)) or (bool(b) and any(u < v * k for (u, k), v in zip(y, b))))
        low, high = low + (crossings == {False}), high + (crossings != {True})
    if pos != len(logs):
        return "used %d draws, its simulations need %d" % (len(logs), pos)
    if any(close(printed, k / sims, 2e-6) for k in range(low, high + 1)):
        return None
    return "printed %r, expected %r" % (printed, low / sims)


def judge_file(real, tmp, c, loose=None):
    b, B, path = [num(x) for x in c["b"]], [num(x) for x in c["B"]], tmp + "/replay-bounds.txt"
    if c["missing"]:
        path = tmp + "/does-not-exist.txt"
    else:
        write_bounds(path, b, B, c["style"], c.get("bad", 0))
    try:
        r = subprocess.run([real.driver("plain")], input="file " + hexs(path) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout"
    l = r.stdout.strip()
    if r.returncode or not l:
        return "exit status %d" % r.returncode
    refused = bool(c["missing"] or c.get("bad"))
    if refused or l[0] == "!":
        return None if refused == (l[0] == "!") else "file %s" % ("rejected" if l[0] == "!" else "accepted")
    x, y = [[unbits(h) for h in p.split()] for p in l[1:].split("|")]
    return None if x == b and y == B else "read as %r and %r" % (x[:8], y[:8])


def judge_mc_args(real, tmp, c, loose=None):
    import judge_int
    return judge_int.judge_mc_args(real, tmp, c)


def python_variant(c, v):
    return ("asan-" if "asan" in v else "") + ("gen" if c.get("gen") else "plain")


def run_python(real, tmp, c, variant):
    d = real.python(python_variant(c, variant))
    env = dict(ENV, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
    if "asan" in variant:
        env["LD_PRELOAD"] = " ".join(subprocess.run(["/usr/bin/g++", "-print-file-name=lib%s.so" % l], stdout=subprocess.PIPE, text=True, env=ENV).stdout.strip() for l in ("asan", "stdc++"))
        env["PYTHONMALLOC"] = "malloc"
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    try:
        r = subprocess.run(["/usr/bin/python3", "-S", "-W", "ignore", V + "/replay/pycall.py"], input=json.dumps(c), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=120, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "timeout"
    if r.returncode:
        return None, "the interpreter ended with status %d: %s" % (r.returncode, " ".join(r.stderr.split())[:200])
    return r.stdout.strip(), None


def judge_python(real, tmp, c, loose=None, variants=("plain",)):
    """one call of a module function from Python, judged by the oracle"""
    d = dict(c)
    d["b"], d["B"] = [bits(x) for x in c["b"]], [bits(x) for x in c["B"]]
    out, err = run_python(real, tmp, d, variants[0])
    if err:
        return err
    b, B = [num(x) for x in c["b"]], [num(x) for x in c["B"]]
    op, text, err = c["op"], c.get("type", 0) in (5, 6), json.loads(out)
    n = len(b)
    if op in (2, 4):
        B = [1.0] * n
    if op in (3, 5):
        b, B = [0.0] * n, b
    ok = len(b) == len(B) and oracle.valid(b) and oracle.valid(B)
    name = ("ecdf2", "ecdf2", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B")[op]
    if err["refs"]:
        return "%s changed the reference counts of its arguments by %s" % (name, err["refs"])
    if err["raised"]:
        if ok and not text and not c["misuse"]:
            return "%s raised %s: %s on a valid call" % (name, err["raised"], err["message"])
        if not ok and not text and not c["misuse"] and (not err["runtime"] or not err["message"]):
            return "%s raised %s with message %r for invalid boundaries instead of a RuntimeError with a message" % (name, err["raised"], err["message"])
        return None
    if c["misuse"] or text or not ok:
        return "%s accepted %s and returned %r" % (name, "wrong arguments" if c["misuse"] else "something that is no number" if text else "invalid boundaries", err["value"])
    if not isinstance(err["value"], float):
        return "%s returned %r, no float" % (name, err["value"])
    want = oracle.prob(b, B)
    return None if close(err["value"], want, loose if loose else 1e-10) else "%s returned %r, expected %r" % (name, err["value"], want)


CLI = {"python": judge_python, "crossprob": judge_cli, "crossprob_mc": judge_mc, "file": judge_file, "crossprob_mc_args": judge_mc_args}


def replay_history(real, tmp, calls, variants=("plain",), perturb=(0,), loose=None):
    """every call must return in the sequence what it returns in a process of its own"""
    for v in variants:
        prog = real.driver(v)
        lines, err = run_driver(prog, calls, 0)
        for i, c in enumerate(calls):
            alone, aerr = run_driver(prog, [c], 0)
            if aerr:
                continue  # not a matter of history
            if i >= len(lines):
                return "%s: %s after %d other calls, but not on its own" % (c["fn"], err or "no result", i)
            a, l = alone[0], lines[i]
            if a.startswith("!") or l.startswith("!"):
                if a != l:
                    return "%s: after %d other calls %s, on its own %s" % (c["fn"], i, "an exception" if l.startswith("!") else "a value", "an exception" if a.startswith("!") else "a value")
                continue
            for x, y in zip(l[1:].split(), a[1:].split()):
                x, y = unbits(x), unbits(y)
                if not (isnan(x) and isnan(y)) and not close(x, y, 1e-9):
                    return "%s: returned %r after %d other calls, %r on its own" % (c["fn"], x, i, y)
    return None


def replay(real, tmp, calls, variants=("plain",), perturb=(0,), loose=None):
    """Returns a description of the failure on the real build, or None."""
    for c in calls:
        if c["fn"] in CLI:
            w = CLI[c["fn"]](real, tmp, c, loose, *((variants,) if c["fn"] == "python" else ()))
            if w:
                return "%s: %s" % (c["fn"], w)
    dc = [c for c in calls if c["fn"] not in CLI]
    if not dc:
        return None
    for v in variants:
        for p in perturb:
            lines, err = run_driver(real.driver(v), dc, p)
            for c, l in zip(dc, lines):
                w = judge(c, l, loose)
                if w:
                    return "%s: %s" % (c["fn"], w)
            if err:
                return "%s: %s" % (dc[min(len(lines), len(dc) - 1)]["fn"], err)
            if len(lines) < len(dc):
                return "%s: no result" % dc[len(lines)]["fn"]
    return None
