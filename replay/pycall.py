"""Repeats one recorded call on the real extension module (stdin: the call as JSON)."""
import json, struct, sys


def unbits(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


c = json.load(sys.stdin)
import crossprob


def element(t, h):
    if t == 0:
        return unbits(h)
    return {1: 0, 2: 1, 3: float("nan"), 4: float("inf"), 5: None, 6: "0.5"}[t]


def seq(hs, odd):
    l = [element(c.get("type", 0) if i == odd else 0, h) for i, h in enumerate(hs)]
    return l if c["kind"] == 0 else tuple(l) if c["kind"] == 1 else crossprob.VectorDouble(l)


def call():
    op, mis = c["op"], c["misuse"]
    two = op < 2
    f = getattr(crossprob, ("ecdf2", "ecdf2", "ecdf1_new_b", "ecdf1_new_B", "ecdf1_mns2016_b", "ecdf1_mns2016_B")[op])
    try:
        x, y = seq(c["b"], c.get("odd0", -1)), seq(c["B"], c.get("odd1", -1)) if two else None
    except TypeError as e:  # a VectorDouble takes numbers only
        return dict(raised="TypeError", message=str(e), value=None, runtime=False, refs="")
    fft = op == 1
    a = {
        0: (x, y, fft) if two else (x,), 1: (), 2: (x, y) if two else (x, x), 3: (x, None, fft) if two else (None,), 4: ("0.5", y, fft) if two else ("0.5",),
        5: (x, 0.5, fft) if two else (0.5,), 6: (x, y, x) if two else (fft,),
    }[mis]
    held = [x] + ([y] if two else [])
    if c["kind"] != 2:
        held += [e for s in list(held) for e in s if type(e) is float]
    counts = [sys.getrefcount(o) for o in held]
    r = dict(raised="", message="", value=None, runtime=False, refs="")
    try:
        r["value"] = f(*a)
    except BaseException as e:
        r.update(raised=type(e).__name__, message=str(e), runtime=isinstance(e, RuntimeError))
    after = [sys.getrefcount(o) for o in held]
    d = [p - q for p, q in zip(after, counts)]
    if any(d):
        r["refs"] = str(d[:8])
    return r


print(json.dumps(call()))
