"""Feasibility of linear constraints over the rationals (Fourier-Motzkin), with integer coefficients.

solve(cons, ints) -> None if infeasible, otherwise a satisfying assignment {monomial: Fraction} ({} if it gave up)."""
from fractions import Fraction
from math import gcd

_conv = {}
_ids = {}
_mono = []


def vid(m):
    i = _ids.get(m)
    if i is None:
        i = _ids[m] = len(_mono)
        _mono.append(m)
    return i


def conv(p, rel, ints):
    """-> (tuple of (var, coefficient), constant, kind) kind: 0 '<=', 1 '<', 2 '='"""
    k = (frozenset(p.items()), rel, ints)
    r = _conv.get(k)
    if r is None:
        den = 1
        for x in p.values():
            d = x.denominator
            den = den * d // gcd(den, d)
        c0 = 0
        v = []
        for m, x in p.items():
            n = x.numerator * (den // x.denominator)
            if m == ():
                c0 = n
            else:
                v.append((vid(m), n))
        v.sort()
        kind = 2 if rel == "=" else 1 if rel == "<" else 0
        if kind == 1 and ints:
            kind, c0 = 0, c0 + 1
        r = _conv[k] = (tuple(v), c0, kind)
    return r


def norm(v, c, s, ints):
    """v: dict without zeros"""
    g = 0
    for x in v.values():
        g = gcd(g, x)
        if g == 1:
            break
    if g > 1:
        if ints:
            return {k: x // g for k, x in v.items()}, -((-c) // g)
        return {k: x // g for k, x in v.items()}, Fraction(c, g)
    return v, c


def solve(cons, ints=False):
    eqs, ine = [], []
    for p, rel in cons:
        v, c, k = conv(p, rel, ints)
        if k == 2:
            eqs.append((dict(v), c))
        else:
            ine.append((dict(v), c, k == 1))
    subs = []
    while eqs:
        # a variable with a unit coefficient if there is one
        v, c = eqs.pop()
        if not v:
            if c != 0:
                return None
            continue
        m = min(v, key=lambda z: abs(v[z]))
        x = v[m]
        subs.append((m, v, c))

        def rep(w, d):
            y = w.get(m)
            if not y:
                return w, d
            # |x| * w - sign(x) * y * v
            ax = abs(x)
            q = y if x > 0 else -y
            r = {n: ax * z for n, z in w.items()} if ax != 1 else dict(w)
            for n, z in v.items():
                t = r.get(n, 0) - q * z
                if t:
                    r[n] = t
                else:
                    r.pop(n, None)
            return r, ax * d - q * c
        eqs = [rep(*e) for e in eqs]
        ine = [rep(w, d) + (s,) for w, d, s in ine]
    best = {}

    def put(v, c, s):
        """False if contradictory"""
        if not v:
            return not (c > 0 or s and c == 0)
        v, c = norm(v, c, s, ints and not s)
        k = frozenset(v.items())
        o = best.get(k)
        if o is None or c > o[1] or c == o[1] and s and not o[2]:
            best[k] = (v, c, s)
        return True
    for v, c, s in ine:
        if not put(v, c, s):
            return None
    elim = []
    while best:
        occ = {}
        for v, c, s in best.values():
            for m, x in v.items():
                o = occ.get(m)
                if o is None:
                    o = occ[m] = [0, 0]
                o[x < 0] += 1
        m = min(occ, key=lambda z: occ[z][0] * occ[z][1] - occ[z][0] - occ[z][1])
        pos, ng, rest = [], [], []
        for e in best.values():
            x = e[0].get(m)
            (rest if not x else pos if x > 0 else ng).append(e)
        if len(pos) * len(ng) > 4000 or len(best) > 1500:
            return {}
        elim.append((m, pos, ng))
        best = {}
        for v, c, s in rest:
            best[frozenset(v.items())] = (v, c, s)
        for v1, c1, s1 in pos:
            a = v1[m]
            for v2, c2, s2 in ng:
                b = -v2[m]
                g = gcd(a, b)
                x, y = b // g, a // g
                r = {n: x * z for n, z in v1.items() if n != m} if x != 1 else {n: z for n, z in v1.items() if n != m}
                for n, z in v2.items():
                    if n != m:
                        t = r.get(n, 0) + y * z
                        if t:
                            r[n] = t
                        else:
                            r.pop(n, None)
                if not put(r, x * c1 + y * c2, s1 or s2):
                    return None
    # a point
    val = {}
    for m, pos, ng in reversed(elim):
        lo = hi = None
        ls = hs = False
        for v, c, s in pos:         # x m + rest + c <= 0
            b = Fraction(-(c + sum(z * val.get(n, 0) for n, z in v.items() if n != m))) / v[m]
            if hi is None or b < hi or b == hi and s:
                hi, hs = b, s
        for v, c, s in ng:
            b = Fraction(-(c + sum(z * val.get(n, 0) for n, z in v.items() if n != m))) / v[m]
            if lo is None or b > lo or b == lo and s:
                lo, ls = b, s
        val[m] = pick(lo, ls, hi, hs)
    for m, v, c in reversed(subs):
        val[m] = Fraction(-(c + sum(z * val.get(n, 0) for n, z in v.items() if n != m))) / v[m]
    return {_mono[k]: x for k, x in val.items()}


def pick(lo, ls, hi, hs):
    if lo is None and hi is None:
        return Fraction(0)
    if lo is None:
        x = Fraction(hi.__floor__())
        return x - 1 if hs and x == hi else x
    x = Fraction(lo.__ceil__())
    if ls and x == lo:
        x += 1
    if hi is None or x < hi or x == hi and not hs:
        return x
    return (lo + hi) / 2


def point(w):
    """an integer point by variable number, or None"""
    r = {}
    for m, x in w.items():
        if x.denominator != 1:
            return None
        if x:
            r[_ids[m]] = x.numerator
    return r


def holds(cons, pt, ints=False):
    """does the point (see above) satisfy the constraints? (missing variables: 0)"""
    for p, rel in reversed(cons):
        v, c, k = conv(p, rel, ints)
        x = c
        for n, z in v:
            y = pt.get(n)
            if y:
                x += z * y
        if not (x <= 0 if k == 0 else x < 0 if k == 1 else x == 0):
            return False
    return True
