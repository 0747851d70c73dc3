"""Independent oracle: Pr[b_i <= X_(i) <= B_i for all i], by a forward recursion over the order of the boundary values."""
from fractions import Fraction
from decimal import Decimal, getcontext
getcontext().prec = 60
getcontext().Emin = -999999999
getcontext().Emax = 999999999


def prob(b, B):
    n = len(b)
    if n == 0:
        return 1.0
    if n <= 8:
        conv = Fraction
    else:
        conv = lambda x: Decimal(x)
    b = [conv(x) for x in b]
    B = [conv(x) for x in B]
    one, zero = conv(1), conv(0)
    levels = sorted(set(b + B + [zero, one]))
    q = [zero] * (n + 1)
    q[0] = one
    fact = [one]
    for i in range(1, n + 1):
        fact.append(fact[-1] * i)
    prev = zero
    for t in levels:
        gap = t - prev
        prev = t
        if gap > 0:
            w = []
            p = one
            for m in range(n + 1):
                w.append(p / fact[m])
                p = p * gap
            q = [sum((q[j] * w[m - j] for j in range(m + 1) if q[j]), zero) for m in range(n + 1)]
        lo = sum(1 for x in B if x <= t)
        hi = sum(1 for x in b if x < t)
        for m in range(n + 1):
            if m < lo or m > hi:
                q[m] = zero
    return float(q[n] * fact[n])


def valid(v):
    prev = 0.0
    for x in v:
        if not (x >= prev):
            return False
        prev = x
    return not v or v[-1] <= 1.0
