"""Independent verdicts on text parsing, argument handling and the random generator of the real build."""
import math, os, re, struct, subprocess
import oracle

M64 = (1 << 64) - 1
MASK = (1 << 63) - 1
WS = " \t\n\v\f\r"
NUM = re.compile(r"[ \t\n\v\f\r]*([+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?[0-9]+)?|(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[iI][nN][fF](?:[iI][nN][iI][tT][yY])?|[nN][aA][nN](?:\([0-9a-zA-Z_]*\))?))", re.A)
LONG = re.compile(r"[ \t\n\v\f\r]*([+-]?[0-9]+)", re.A)


def bits(x):
    return struct.pack(">d", x).hex()


def leading_number(s):
    """value of the number a field starts with, as the C library reads it; None if there is none (or it is out of range)"""
    s = s.split("\0")[0]
    m = NUM.match(s)
    if not m:
        return None
    t = m.group(1)
    l = t.lower().lstrip("+-")
    if l.startswith("0x"):
        try:
            v = float.fromhex(t)
        except OverflowError:
            return None
        digits = re.sub(r"p.*", "", l[2:])
    elif l.startswith("nan"):
        return math.nan
    elif l.startswith("inf"):
        return -math.inf if t[0] == "-" else math.inf
    else:
        v = float(t)
        digits = re.sub(r"e.*", "", l)
    if math.isinf(v) or (abs(v) < 2.2250738585072014e-308 and re.search(r"[1-9a-f]", digits)):
        return None
    return v


def leading_long(s):
    s = s.split("\0")[0]
    m = LONG.match(s)
    if not m or m.end() != len(s):
        return None
    v = int(m.group(1))
    return v if -(1 << 63) <= v < 1 << 63 else None


def same(h, v):
    x = struct.unpack(">d", bytes.fromhex(h))[0]
    return (x != x) if v != v else h == bits(v)


def next_state(s0, s1, m1, m2):
    y = (s0 & MASK) ^ s1
    y ^= y << 12 & M64
    y ^= y >> 32
    y ^= y << 32 & M64
    y ^= y << 11 & M64
    odd = M64 if y & 1 else 0
    return s1 ^ (odd & m1), y ^ (odd & (m2 << 32 & M64))


def temper(s0, s1, tmat):
    t = ((s0 + s1) & M64) ^ (s0 >> 8)
    return t ^ (tmat if t & 1 else 0)


def certify(a, b):
    return (ord("T"), ord("M")) if (a & MASK) == 0 and b == 0 else (a, b)


def rng_init(m1, m2, tmat, seed):
    s = [seed ^ (m1 << 32), m2 ^ tmat]
    for i in range(1, 8):
        p = s[(i - 1) & 1]
        s[i & 1] ^= (i + 6364136223846793005 * (p ^ (p >> 62))) & M64
    return certify(*s)


def rng_array(m1, m2, tmat, key):
    f = lambda x, c: (x ^ (x >> 59)) * c & M64
    n, x, p = len(key), [0, m1, m2, tmat], 0
    for k in range(max(n + 1, 8)):
        r = f(x[p] ^ x[(p + 1) & 3] ^ x[(p + 3) & 3], 2173292883993)
        x[(p + 1) & 3] = x[(p + 1) & 3] + r & M64
        r = r + (n if k == 0 else (key[k - 1] if k <= n else 0) + p) & M64
        x[(p + 2) & 3] = x[(p + 2) & 3] + r & M64
        x[p] = r
        p = (p + 1) & 3
    for k in range(4):
        r = f(x[p] + x[(p + 1) & 3] + x[(p + 3) & 3] & M64, 58885565329898161)
        x[(p + 1) & 3] ^= r
        r = r - p & M64
        x[(p + 2) & 3] ^= r
        x[p] = r
        p = (p + 1) & 3
    return certify(x[0] ^ x[1], x[2] ^ x[3])


def u(x):
    return int(x) & M64


def judge(c, line):
    f, threw, out = c["fn"], line.startswith("!"), line[1:].split()
    if f == "line":
        fields = c["text"].split(",")
        if fields[-1] == "":
            fields.pop()
        want = [leading_number(x) for x in fields]
        if None in want:
            return None if threw else "%r accepted as %d numbers" % (c["text"], len(out))
        if threw:
            return "%r rejected" % c["text"]
        ok = len(out) == len(want) and all(same(h, v) for h, v in zip(out, want))
        return None if ok else "%r read as %s, expected %s" % (c["text"], [struct.unpack(">d", bytes.fromhex(h))[0] for h in out], want)
    if f == "double":
        want = leading_number(c["text"])
        if want is None:
            return None if threw else "%r accepted" % c["text"]
        return "%r rejected" % c["text"] if threw else None if same(out[0], want) else "%r read as %r" % (c["text"], struct.unpack(">d", bytes.fromhex(out[0]))[0])
    if f == "long":
        want = leading_long(c["text"])
        if want is None:
            return None if threw else "%r accepted as %s" % (c["text"], out[0])
        return "%r rejected" % c["text"] if threw else None if int(out[0]) == want else "%r read as %s" % (c["text"], out[0])
    if f == "split":
        want = c["text"].split(c["delimiter"])
        got = [bytes.fromhex("" if h == "-" else h).decode("latin-1") for h in out]
        return None if got == want else "%r split into %r" % (c["text"], got)
    if f == "rng_init":
        want = rng_init(u(c["mat1"]), u(c["mat2"]), u(c["tmat"]), u(c["seed"]))
        return None if (int(out[0]), int(out[1])) == want else "state %s, expected %s" % (out, want)
    if f == "rng_array":
        want = rng_array(u(c["mat1"]), u(c["mat2"]), u(c["tmat"]), [u(c["key%d" % i]) for i in range(c["n"])])
        return None if (int(out[0]), int(out[1])) == want else "state %s, expected %s" % (out, want)
    if f == "rng_step":
        n0, n1 = next_state(u(c["s0"]), u(c["s1"]), u(c["mat1"]), u(c["mat2"]))
        t = temper(n0, n1, u(c["tmat"]))
        if [int(x) for x in out[:3]] != [n0, n1, t]:
            return "state and output %s, expected %s" % (out[:3], [n0, n1, t])
        d, d01, d12, oc, oo = [struct.unpack(">d", bytes.fromhex(h))[0] for h in out[3:]]
        c12 = struct.unpack(">d", struct.pack(">Q", 0x3FF << 52 | t >> 12))[0]
        bad = [n for n, ok in (("generate_double %r" % d, 0 <= d < 1), ("double01 %r" % d01, d01 == c12 - 1), ("double12 %r" % d12, d12 == c12), ("doubleOC %r" % oc, oc == 2 - c12), ("doubleOO %r" % oo, 0 < oo < 1)) if not ok]
        return None if not bad else "for output %d: %s" % (t, ", ".join(bad))
    raise KeyError(f)


def judge_mc_args(real, tmp, c):
    """each simulation of these files uses two draws of 0.5"""
    import replay
    path, dr, used = tmp + "/replay-bounds.txt", tmp + "/replay-draws.txt", tmp + "/replay-used.txt"
    open(path, "w").write("0.2\n0.9\n")
    text = c["text"]
    mode, sims = (text, c["sims"]) if c["which"] == 1 else (c["mode"], text)
    argv = [mode, path + (".does-not-exist" if c["missing"] else ""), sims, "2", "2"][: c["argc"] - 1]
    v = leading_long(sims)
    ok = c["argc"] == 4 and not c["missing"] and mode in ("ecdf", "poisson") and v is not None
    if ok and v == 0:
        return None
    ok = ok and v > 0
    k = 2 * v if ok and v <= 100000 else 40
    with open(dr, "w") as f:
        f.write("-0.69314718055994531\n" * k)
    open(used, "w").write("0")
    try:
        r = subprocess.run([os.fsencode(real.mc_shim())] + [a.encode("latin-1") for a in argv], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(replay.ENV, CROSSPROB_DRAWS=dr, CROSSPROB_USED=used), timeout=60)
    except subprocess.TimeoutExpired:
        return "timeout"
    nums = replay.scalar_lines(r.stdout.decode("latin-1"))
    if not ok:
        return None if r.returncode > 0 and r.returncode != 77 and not nums else "arguments %r: exit status %d, printed %r" % (argv, r.returncode, nums)
    if v > 100000:
        return None if r.returncode == 77 else "arguments %r: exit status %d after %s draws" % (argv, r.returncode, open(used).read())
    n = int(open(used).read())
    if r.returncode or not nums or n != k:
        return "arguments %r: exit status %d, printed %r, %d draws for %d simulations" % (argv, r.returncode, nums, n, v)
    return None
