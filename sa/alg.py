"""Algebra over value numbers: polynomials, exact comparison of piecewise-polynomial terms by case
split on the signs of the linear forms they compare, and a small linear-inequality domain
(Fourier-Motzkin over the rationals)."""
from fractions import Fraction
from terms import *
import fm


class NeedSign(Exception):
    def __init__(self, p):
        self.p = p


class NeedBool(Exception):
    def __init__(self, t):
        self.t = t


class TooHard(Exception):
    pass


THREADS = raw("sym", ("threads", "usize"))

# ---- polynomials: {tuple(sorted atom terms by id): Fraction} ---------------------------------

def pconst(c):
    return {(): Fraction(c)} if c else {}


def patom(t):
    return {(t,): Fraction(1)}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        x = r.get(m, 0) + k * c
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            x = r.get(k, 0) + c * d
            if x:
                r[k] = x
            else:
                r.pop(k, None)
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pkey(p):
    return tuple(sorted(((tuple(t.id for t in m)), c) for m, c in p.items()))


def isconst(p):
    return all(m == () for m in p)


def cval(p):
    return p.get((), Fraction(0))


def canon(p):
    """(canonical positive-leading form, sign) with p = |k| * sign * canonical"""
    ms = sorted((m for m in p if m != ()), key=lambda m: tuple(t.id for t in m))
    if not ms:
        return None, 0
    c = p[ms[0]]
    return {m: x / abs(c) * (1 if c > 0 else -1) for m, x in p.items()}, (1 if c > 0 else -1)


class Ctx:
    """signs: list of (poly, sign) chosen; bools: {term: bool}"""

    def __init__(self, signs=None, bools=None, assume=()):
        self.signs = signs or {}
        self.bools = bools or {}
        self.assume = assume

    def sign(self, p):
        if isconst(p):
            c = cval(p)
            return (c > 0) - (c < 0)
        q, s = canon(p)
        k = pkey(q)
        if k in self.signs:
            return self.signs[k][1] * s
        raise NeedSign(q)


INF = {"inf": 1, "-inf": -1, "max": 1, "min": -1}


def poly(t, cx):
    o, a = t.op, t.a
    if o == "int":
        return pconst(a[0])
    if o == "flt":
        if isinstance(a[0], str):
            return patom(t)
        return pconst(Fraction(a[0]))
    if o == "add":
        return padd(poly(a[0], cx), poly(a[1], cx))
    if o == "sub":
        return padd(poly(a[0], cx), poly(a[1], cx), -1)
    if o == "neg":
        return pscale(poly(a[0], cx), -1)
    if o == "mul":
        return pmul(poly(a[0], cx), poly(a[1], cx))
    if o == "div" and a[1].op == "flt" and num(a[1]):
        return pscale(poly(a[0], cx), 1 / Fraction(num(a[1])))
    if o == "powi" and a[1].op == "int" and 0 <= a[1].a[0] <= 8:
        r = pconst(1)
        x = poly(a[0], cx)
        for _ in range(a[1].a[0]):
            r = pmul(r, x)
        return r
    if o in ("min", "max"):
        x, y = poly(a[0], cx), poly(a[1], cx)
        s = cx.sign(padd(x, y, -1))
        if o == "min":
            return x if s <= 0 else y
        return x if s >= 0 else y
    if o == "abs":
        x = poly(a[0], cx)
        s = cx.sign(x)
        return x if s >= 0 else pscale(x, -1)
    if o == "satsub":
        x = padd(poly(a[0], cx), poly(a[1], cx), -1)
        return x if cx.sign(x) >= 0 else {}
    if o == "ite":
        return poly(a[1] if truth(a[0], cx) else a[2], cx)
    if o == "tofloat" or o == "narrow" or o == "widen":
        return patom(t)
    if o == "sum":
        b, lo, hi, body = a
        return patom(t)
    if o == "len":
        return patom(t)
    return patom(t)


def truth(c, cx):
    o, a = c.op, c.a
    if o == "bool":
        return a[0]
    if o == "not":
        return not truth(a[0], cx)
    if o == "and":
        return truth(a[0], cx) and truth(a[1], cx)
    if o == "or":
        return truth(a[0], cx) or truth(a[1], cx)
    if o in ("lt", "le", "eq"):
        if o != "eq" or not (a[0].op in LOG or a[1].op in LOG):
            s = cx.sign(padd(poly(a[0], cx), poly(a[1], cx), -1))
            return s < 0 if o == "lt" else s <= 0 if o == "le" else s == 0
    if o == "ite":
        return truth(a[1] if truth(a[0], cx) else a[2], cx)
    if c in cx.bools:
        return cx.bools[c]
    raise NeedBool(c)


LOG = {"bool", "lt", "le", "eq", "not", "and", "or", "is", "isnan", "isinf", "isneg", "forall", "exists"}


def cases(f, assume=(), limit=4000, bools=None, ints=False):
    """Run f(cx) for every consistent choice of signs/booleans it asks for; yields (cx, result).
    assume: list of (poly, rel) rel in '<','<=','=' meaning poly rel 0."""
    base = list(assume)
    stack = [({}, dict(bools or {}), [])]
    n = 0
    while stack:
        signs, bls, cons = stack.pop()
        n += 1
        if n > limit:
            raise TooHard("too many cases")
        cx = Ctx(signs, bls)
        try:
            r = f(cx)
        except NeedSign as e:
            k = pkey(e.p)
            for s in (-1, 0, 1):
                rel = (e.p, "<") if s < 0 else (e.p, "=") if s == 0 else (pscale(e.p, -1), "<")
                c2 = cons + [rel]
                if feasible(base + c2, ints):
                    s2 = dict(signs)
                    s2[k] = (e.p, s)
                    stack.append((s2, bls, c2))
            continue
        except NeedBool as e:
            for v in (True, False):
                b2 = dict(bls)
                b2[e.t] = v
                stack.append((signs, b2, cons))
            continue
        yield cx, cons, r


# ---- linear inequalities ---------------------------------------------------------------------

def feasible(cons, ints=False):
    """Is {poly rel 0} satisfiable over the rationals, nonlinear monomials being variables?"""
    return fm.solve(cons, ints) is not None


# ---- comparing terms -------------------------------------------------------------------------

def lin(t):
    """linear constraint atoms of a value number without case splits"""
    return poly(t, Ctx())


def _split(t, cx):
    """polynomial of t with sums over equal ranges merged: (rest poly, {(lo,hi): [(coef, body, b)]})"""
    p = poly(t, cx)
    rest = {}
    sums = {}
    for m, c in p.items():
        if len(m) == 1 and m[0].op == "sum":
            b, lo, hi, body = m[0].a
            sums.setdefault((lo, hi), []).append((c, body, b))
        elif any(x.op == "sum" for x in m):
            raise TooHard("product of sums")
        else:
            rest[m] = c
    return rest, sums


def equal(x, y, assume=(), forall_assume=None, bools=None):
    """Is x == y for all values of the atoms satisfying the assumptions?  True / False; TooHard when undecided.
    forall_assume(j) -> extra assumptions inside sums over axis j."""
    if x is y:
        return True
    for cx, cons, (rest, sums) in cases(lambda cx: _split(sub(x, y), cx), assume, bools=bools):
        if rest:
            if not vanishes(rest, list(assume) + cons):
                return False
        for (lo, hi), l in sums.items():
            v = bv()
            body = None
            tot = [(c, subst(bd, {b: v})) for c, bd, b in l]
            extra = list(forall_assume(v)) if forall_assume else []

            def f(cx2):
                r = {}
                for c, bd in tot:
                    r = padd(r, poly(bd, cx2), c)
                return r
            for cx2, cons2, r in cases(f, list(assume) + extra, bools=dict(cx.bools)):
                if r:
                    if not vanishes(r, list(assume) + extra + cons2):
                        return False
    return True


def same(x, y, assume=(), fa=None, bools=None):
    try:
        r = equal(x, y, assume, fa, bools)
    except (TooHard, RecursionError):
        r = None
    if r is not True:
        d = dimsame(x, y, fa, bools)
        if d is not None:
            return d
    return r


_dims = {}


def dimsame(x, y, fa=None, bools=None):
    """x == y with the sums written out, for 1 to 9 dimensions: loops may walk the dimensions in any order or step.
    True (up to 9 dimensions), False, or None when this does not apply."""
    k = (x, y, fa is None, tuple(sorted(bools.items(), key=lambda z: z[0].id)) if bools else None)
    if k not in _dims:
        _dims[k] = _dimsame(x, y, fa, bools)
    return _dims[k]


def bounds(t):
    """ranges of the sums in t"""
    return {(z.a[1], z.a[2]) for z in walk(t) if z.op == "sum"}


def _dimsame(x, y, fa, bools):
    bx, by = bounds(x), bounds(y)
    if not bx or not by or bx == by and len(bx) == 1:
        return None
    ps = {z for lo, hi in bx | by for b in (lo, hi) for z in walk(b) if z.op == "cparam"}
    if len(ps) != 1:
        return None
    D = next(iter(ps))
    try:
        for n in (2, 1, 3, 4, 5, 6, 7, 8, 9):
            a, b = expand(x, D, n), expand(y, D, n)
            p = padd(opoly(a), opoly(b), -1)
            if not p:
                continue
            if n > 4:
                return None
            extra = []
            if fa:
                for j in range(n):
                    extra += list(fa(T_int(j)))
            if not equal(a, b, extra, None, bools):
                return False
    except (TooHard, RecursionError):
        return None
    return True


def T_int(j):
    from terms import I
    return I(j)


def expand(t, D, n):
    from terms import rebuild, I, ZERO, add
    memo = {}

    def go(z):
        if z is D:
            return I(n)
        r = memo.get(z)
        if r is not None:
            return r
        if z.op == "sum":
            b, lo, hi, body = z.a
            lo, hi = go(lo), go(hi)
            if lo.op != "int" or hi.op != "int" or hi.a[0] - lo.a[0] > 64:
                raise TooHard("range")
            r = None
            for i in range(lo.a[0], hi.a[0]):
                q = go(subst(body, {b: I(i)}))
                r = q if r is None else add(r, q)
            if r is None:
                r = raw("flt", 0.0)
        else:
            new = [go(q) if isinstance(q, T) else q for q in z.a]
            r = z
            if any(p is not q for p, q in zip(new, z.a)):
                r = rebuild(z.op, new)
            if r.op == "bitnot" and r.a[0].op == "int":
                r = I((1 << 64) - 1 - r.a[0].a[0])
            elif r.op in ("bitand", "bitor", "bitxor", "shl", "shr") and all(q.op == "int" for q in r.a[:2]):
                u, v = r.a[0].a[0], r.a[1].a[0]
                r = I({"bitand": u & v, "bitor": u | v, "bitxor": u ^ v, "shl": u << min(v, 64), "shr": u >> min(v, 200)}[r.op])
        memo[z] = r
        return r
    return go(t)


def psubst(p, t, q):
    """p with atom t replaced by polynomial q"""
    r = {}
    for m, c in p.items():
        x = {tuple(z for z in m if z is not t): c}
        for _ in range(sum(1 for z in m if z is t)):
            x = pmul(x, q)
        r = padd(r, x)
    return r


def vanishes(p, cons):
    """Does p vanish where cons hold?  Uses the linear equalities, then the inequalities."""
    eqs = [e for e, rel in cons if rel == "="]
    while eqs and p:
        e = eqs.pop()
        for m, c in e.items():
            if len(m) == 1 and not any(m[0] in n for n in e if n != m):
                q = pscale(padd(e, {m: c}, -1), -1 / c)
                t = m[0]
                p = psubst(p, t, q)
                eqs = [psubst(x, t, q) for x in eqs]
                eqs = [x for x in eqs if x]
                break
    if not p:
        return True
    if all(m == () for m in p):
        return False
    return not feasible(list(cons) + [(p, "<")]) and not feasible(list(cons) + [(pscale(p, -1), "<")])


def lincons(facts):
    """facts [(cond, bool)] -> linear constraints (atoms opaque)"""
    res = []
    for c, v in facts:
        if c.op not in ("lt", "le", "eq"):
            if c.op == "and" and v or c.op == "or" and not v:
                res += lincons([(x, v) for x in c.a])
            elif c.op == "not":
                res += lincons([(c.a[0], not v)])
            continue
        x, y = c.a
        if x.op in LOG or y.op in LOG:
            continue
        for cx_p in [lin2(x, y)]:
            if cx_p is None:
                continue
            p = cx_p
            if c.op == "lt":
                res.append((p, "<") if v else (pscale(p, -1), "<="))
            elif c.op == "le":
                res.append((p, "<=") if v else (pscale(p, -1), "<"))
            elif v:
                res.append((p, "="))
            elif y is ZERO and nonneg(x):
                res.append((pscale(p, -1), "<"))
    return res


class Lazy(Ctx):
    """keeps min/max/ite opaque"""

    def sign(self, p):
        if isconst(p):
            c = cval(p)
            return (c > 0) - (c < 0)
        raise NeedSign(p)


def opoly(t):
    """polynomial with non-arithmetic (and piecewise) parts as atoms"""
    o, a = t.op, t.a
    if o in ("add", "sub"):
        return padd(opoly(a[0]), opoly(a[1]), 1 if o == "add" else -1)
    if o == "neg":
        return pscale(opoly(a[0]), -1)
    if o == "mul":
        return pmul(opoly(a[0]), opoly(a[1]))
    if o == "int":
        return pconst(a[0])
    if o == "flt" and not isinstance(a[0], str):
        return pconst(Fraction(a[0]))
    return patom(t)


def lin2(x, y):
    return padd(opoly(x), opoly(y), -1)


def atomcons(polys, depth=3):
    """integer facts about opaque atoms: div, rem, min, max, satsub, nonneg"""
    res = []
    seen = set()
    todo = [t for p in polys for m in p for t in m]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        o, a = t.op, t.a
        new = []
        if o == "div" and a[1].op == "int" and a[1].a[0] > 0:
            k = a[1].a[0]
            q = opoly(a[0])
            x = patom(t)
            res.append((padd(pscale(x, k), q, -1), "<="))            # k*t <= a
            res.append((padd(padd(q, pscale(x, k), -1), pconst(-(k - 1))), "<="))  # a <= k*t + k-1
            new.append(q)
        elif o == "rem" and a[1].op == "int" and a[1].a[0] > 0:
            res.append((pscale(patom(t), -1), "<="))
            res.append((padd(patom(t), pconst(-(a[1].a[0] - 1))), "<="))
        elif o == "min":
            for z in a:
                q = opoly(z)
                res.append((padd(patom(t), q, -1), "<="))
                new.append(q)
        elif o == "max":
            for z in a:
                q = opoly(z)
                res.append((padd(q, patom(t), -1), "<="))
                new.append(q)
        elif o == "satsub":
            q = padd(opoly(a[0]), opoly(a[1]), -1)
            res.append((padd(q, patom(t), -1), "<="))
            res.append((pscale(patom(t), -1), "<="))
            new.append(q)
        if t is THREADS:
            res.append((padd(pconst(1), patom(t), -1), "<="))      # a pool has at least one thread
        elif nonneg(t):
            res.append((pscale(patom(t), -1), "<="))
        for q in new:
            todo += [z for m in q for z in m]
    return res


def implies(facts, goal, val=True, ints=True, extra=()):
    """Do the facts (list of (cond, bool)) entail goal == val?  goal: lt/le/eq.  min/max atoms are split."""
    cons = list(extra) + lincons(facts)
    g, v = goal, val
    while g.op == "not":
        g, v = g.a[0], not v
    if g.op == "bool":
        return g.a[0] == v
    if g.op == "and" and v:
        return all(implies(facts, x, True, ints, extra) for x in g.a)
    if g.op == "or" and not v:
        return all(implies(facts, x, False, ints, extra) for x in g.a)
    if g.op == "eq" and v:
        return implies(facts, raw("le", *g.a), True, ints, extra) and implies(facts, raw("le", g.a[1], g.a[0]), True, ints, extra)
    if (g, v) in facts:
        return True
    if g.op not in ("lt", "le"):
        return False
    p = lin2(*g.a)
    if g.op == "lt":
        negd = (pscale(p, -1), "<=") if v else (p, "<")
    else:
        negd = (pscale(p, -1), "<") if v else (p, "<=")
    allc = cons + [negd]
    return infeasible_split(allc, ints)


def infeasible_split(allc, ints, depth=0):
    ac = atomcons([p for p, _ in allc]) if ints else []
    if not feasible(allc + ac, ints):
        return True
    if depth >= 4:
        return False
    # case split on a min / max / ite / satsub atom
    for p, _ in allc + ac:
        for m in p:
            for t in m:
                if t.op in ("min", "max"):
                    x, y = opoly(t.a[0]), opoly(t.a[1])
                    d = padd(x, y, -1)
                    lo, hi = (x, y) if t.op == "min" else (y, x)
                    c1 = [(d, "<="), (padd(patom(t), lo, -1), "=")]
                    c2 = [(pscale(d, -1), "<="), (padd(patom(t), hi, -1), "=")]
                    if any(q == c1[1][0] for q, _ in allc) or any(q == c2[1][0] for q, _ in allc):
                        continue
                    return infeasible_split(allc + c1, ints, depth + 1) and infeasible_split(allc + c2, ints, depth + 1)
                if ints and t.op == "div" and t.a[1].op not in ("int", "flt"):
                    # a division that is carried out has a divisor of at least one
                    d = padd(opoly(t.a[0]), opoly(t.a[1]), -1)
                    c1 = [(padd(d, pconst(1)), "<="), (patom(t), "<=")]
                    c2 = [(pscale(d, -1), "<="), (padd(pconst(1), patom(t), -1), "<=")]
                    if c1[1] in allc or c2[1] in allc:
                        continue
                    return infeasible_split(allc + c1, ints, depth + 1) and infeasible_split(allc + c2, ints, depth + 1)
                if t.op == "ite":
                    c = t.a[0]
                    e1 = padd(patom(t), opoly(t.a[1]), -1)
                    e2 = padd(patom(t), opoly(t.a[2]), -1)
                    if any(q == e1 for q, _ in allc) or any(q == e2 for q, _ in allc):
                        continue
                    return infeasible_split(allc + lincons([(c, True)]) + [(e1, "=")], ints, depth + 1) and \
                        infeasible_split(allc + lincons([(c, False)]) + [(e2, "=")], ints, depth + 1)
    return False


def contradict(facts):
    """are the facts inconsistent?"""
    fs = set()
    for c, v in facts:
        if (c, not v) in fs:
            return True
        fs.add((c, v))
        if c.op == "bool" and c.a[0] != v:
            return True
    return infeasible_split(lincons(facts), True)


def squares(t):
    """whether the value is made of products, as a sum of squares is"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "powi" or (x.op == "mul" and not any(isinstance(y, T) and y.op in ("int", "flt") for y in x.a)):
            return True
        if x.op in ("add", "sub", "neg", "ite", "sum", "min", "max", "mul"):
            todo.extend(x.a)
    return False


def cancels(t):
    """a difference of two sums of squares: equal to the true value over the reals, but not after rounding"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "sub" and squares(x.a[0]) and squares(x.a[1]):
            return True
        if x.op == "add" and any(y.op == "neg" and squares(y) for y in x.a) and any(y.op != "neg" and squares(y) for y in x.a):
            return True
        todo.extend(x.a)
    return False
