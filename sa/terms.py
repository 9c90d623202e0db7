"""Hash-consed value numbers (terms) and their local simplification rules.

A term stands for the value of a MIR operand; equal ids mean equal values.  The arithmetic is that
of the reals / the mathematical integers (rounding is not modelled)."""

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "ph", "bvs", "size", "bh", "__weakref__")

    def __repr__(self):
        return show(self)


def raw(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        ph = frozenset()
        bv = frozenset()
        size = 1
        bh = 0
        for x in a:
            if isinstance(x, T):
                if x.bh > bh:
                    bh = x.bh
                if x.ph:
                    ph = ph | x.ph
                if x.bvs:
                    bv = bv | x.bvs
                size += x.size
        if op == "phi":
            ph = ph | {a[0]}
        if op == "bv":
            bv = bv | {t}
        elif op in BINDERS:
            bv = bv - {a[0]}
        t.ph = ph
        t.bvs = bv
        t.bh = bh + 1 if op in BINDERS else bh
        t.size = min(size, 10**9)
        _tab[k] = t
    return t


BINDERS = {"sum", "arrlam", "mapseq", "filtseq", "red", "forall", "exists", "prod"}
_n = [0]


def bind(op, b, *rest):
    """A binder term, its bound variable renamed canonically (equal up to renaming => identical)."""
    h = 0
    for x in rest:
        if isinstance(x, T) and x.bh > h:
            h = x.bh
    c = raw("bv", "c%d" % (h + 1))
    if c is not b:
        rest = [subst(x, {b: c}) if isinstance(x, T) and x.bvs and b in x.bvs else x for x in rest]
        h2 = 0
        for x in rest:
            if isinstance(x, T) and x.bh > h2:
                h2 = x.bh
        if h2 != h:
            return bind(op, c, *rest)
    return raw(op, c, *rest)


def open_(t):
    """Instantiate a binder term with a new variable: (var, rest...)."""
    v = bv()
    return (v,) + tuple(subst(x, {t.a[0]: v}) if isinstance(x, T) else x for x in t.a[1:])


def uniq():
    _n[0] += 1
    return _n[0]


def I(n):
    return raw("int", n)


def B(b):
    return TRUE if b else FALSE


TRUE = raw("bool", True)
FALSE = raw("bool", False)
UNIT = raw("agg", "tuple", 0)
ZERO = I(0)
ONE = I(1)


def F(x):
    return raw("flt", x)


def sym(name):
    return raw("sym", name)


def fresh(why):
    return raw("havoc", uniq(), why)


def bv():
    return raw("bv", uniq())


def agg(kind, variant, *fs):
    return raw("agg", kind, variant, *fs)


def tup(*fs):
    return raw("agg", "tuple", 0, *fs)


OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return agg(OPT, 1, x)


NONE = raw("agg", OPT, 0)


def ok(x):
    return agg(RES, 0, x)


def err(x):
    return agg(RES, 1, x)


def num(t):
    """Python number of a constant term, else None."""
    if t.op == "int":
        return t.a[0]
    if t.op == "flt" and not isinstance(t.a[0], str):
        return t.a[0]
    return None


def isint(t):
    return t.op == "int"


def mk(op, *a):
    f = SIMP.get(op)
    return f(*a) if f else raw(op, *a)


def _const(t):
    n = num(t)
    return n


def add(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        r = x + y
        return I(r) if a.op == "int" and b.op == "int" else F(r)
    if x == 0:
        return b
    if y == 0:
        return a
    if x is not None:
        a, b, x, y = b, a, y, x
    # constant on the right
    if y is not None:
        if a.op == "add" and num(a.a[1]) is not None and a.a[1].op == b.op:
            return add(a.a[0], add(a.a[1], b))
        return raw("add", a, b)
    if a.op == "add" and num(a.a[1]) is not None:
        return add(add(a.a[0], b), a.a[1])
    if b.op == "add" and num(b.a[1]) is not None:
        return add(add(a, b.a[0]), b.a[1])
    # x + (y - x) = y
    if b.op == "sub" and b.a[1] is a:
        return b.a[0]
    if a.op == "sub" and a.a[1] is b:
        return a.a[0]
    if a.id > b.id:
        a, b = b, a
    return raw("add", a, b)


def sub(a, b):
    if a is b and a.op != "flt":
        return ZERO
    if b.op == "int":
        return add(a, I(-b.a[0]))
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return F(x - y)
    if y == 0:
        return a
    if a.op == "add":
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    return raw("sub", a, b)


def mul(a, b):
    x, y = num(a), num(b)
    if x is not None and y is not None:
        r = x * y
        return I(r) if a.op == "int" and b.op == "int" else F(r)
    if x is not None:
        a, b, x, y = b, a, y, x
    if y == 1:
        return a
    if y == 0 and b.op == "int":
        return b
    if a.op == "abs" and b is a:
        a = b = a.a[0]
    if y is None and a.id > b.id:
        a, b = b, a
    return raw("mul", a, b)


def div(a, b):
    x, y = num(a), num(b)
    if y == 1:
        return a
    if a.op == "int" and b.op == "int" and y:
        return I(x // y)
    if b.op == "flt" and y:
        return mul(a, F(1.0 / y))
    if b.op == "int" and b.a[0] > 0 and a.op == "mul" and (a.a[0] is b or a.a[1] is b):
        return a.a[1] if a.a[0] is b else a.a[0]
    if b.op == "int" and a.op == "div" and a.a[1].op == "int":
        return div(a.a[0], I(a.a[1].a[0] * b.a[0]))
    if a.op == "sub" and a.a[0].op == "fld":
        # the distance of two addresses in rows
        z = b.a[1] if b.op == "max" and b.a[0] is ONE else b.a[0] if b.op == "max" and b.a[1] is ONE else b
        if z.op == "sizeof" and z.a[0].startswith("[") and ("NotNan<" in z.a[0] or z.a[0].startswith("[T;")) and not z.a[0].startswith("[["):
            return raw("ptrdiff", *a.a)
    return raw("div", a, b)


def rem(a, b):
    if a.op == "int" and b.op == "int" and b.a[0]:
        return I(a.a[0] % b.a[0])
    if b.op == "int" and b.a[0] == 1:
        return ZERO
    return raw("rem", a, b)


def neg(a):
    x = num(a)
    if x is not None:
        return I(-x) if a.op == "int" else F(-x)
    if a.op == "neg":
        return a.a[0]
    if a.op == "flt":
        return F({"inf": "-inf", "-inf": "inf", "max": "min", "min": "max"}.get(a.a[0], a.a[0]))
    return raw("neg", a)


def powi(a, n):
    if n.op == "int":
        k = n.a[0]
        if k == 0:
            return F(1.0)
        if 0 < k <= 4:
            r = a
            for _ in range(k - 1):
                r = mul(r, a) if r is not a or k == 2 else mul(a, a)
            return r
    return raw("powi", a, n)


def pow_(a, b):
    if a.op == "int" and b.op == "int" and b.a[0] >= 0:
        return I(a.a[0] ** b.a[0])
    return raw("pow", a, b)


def min_(a, b):
    if a is b:
        return a
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return a if x <= y else b
    for p, q in ((a, b), (b, a)):
        if q.op == "min" and (q.a[0] is p or q.a[1] is p):
            return q
    if a.id > b.id:
        a, b = b, a
    return raw("min", a, b)


def max_(a, b):
    if a is b:
        return a
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return a if x >= y else b
    for p, q in ((a, b), (b, a)):
        if q.op == "max" and (q.a[0] is p or q.a[1] is p):
            return q
    if a.id > b.id:
        a, b = b, a
    return raw("max", a, b)


def satsub(a, b):
    if b.op == "int" and b.a[0] == 0:
        return a
    if a.op == "int" and b.op == "int":
        return I(max(0, a.a[0] - b.a[0]))
    return raw("satsub", a, b)


def abs_(a):
    x = num(a)
    if x is not None:
        return I(abs(x)) if a.op == "int" else F(abs(x))
    if a.op in ("abs", "neg"):
        return abs_(a.a[0]) if a.op == "neg" else a
    return raw("abs", a)


ORDF = {"-inf": -4, "min": -3, "max": 3, "inf": 4}


def ordc(t):
    n = num(t)
    if n is not None:
        return (0, n)
    if t.op == "flt":
        return (ORDF[t.a[0]], 0) if t.a[0] in ORDF else None
    return None


def lt(a, b):
    if a is b:
        return FALSE
    x, y = ordc(a), ordc(b)
    if x is not None and y is not None:
        return B(x < y)
    # unsigned below zero
    if b.op == "int" and b.a[0] <= 0 and nonneg(a):
        return FALSE
    if a.op == "int" and a.a[0] < 0 and nonneg(b):
        return TRUE
    # x < 1  <=>  x == 0   for unsigned ints
    if b.op == "int" and b.a[0] == 1 and nonneg(a):
        return eq(a, ZERO)
    if a.op == "int" and a.a[0] == 0 and nonneg(b):
        return not_(eq(b, ZERO))
    # compare modulo a common integer offset
    if a.op == "add" and a.a[1].op == "int" and b.op == "add" and b.a[1].op == "int":
        d = a.a[1].a[0] - b.a[1].a[0]
        if d >= 0:
            return lt(add(a.a[0], I(d)), b.a[0])
        return lt(a.a[0], add(b.a[0], I(-d)))
    # a < b + 1  <=>  a <= b  (integers)
    if b.op == "add" and b.a[1].op == "int" and b.a[1].a[0] == 1:
        return le(a, b.a[0])
    if a is not b and a.op == "add" and a.a[1].op == "int" and a.a[0] is b:
        return B(a.a[1].a[0] < 0)
    return raw("lt", a, b)


def le(a, b):
    if a is b:
        return TRUE
    x, y = ordc(a), ordc(b)
    if x is not None and y is not None:
        return B(x <= y)
    if a.op == "int" and a.a[0] <= 0 and nonneg(b):
        return TRUE
    if b.op == "int" and b.a[0] == 0 and nonneg(a):
        return eq(a, ZERO)
    if a.op == "int" and a.a[0] == 1 and nonneg(b):
        return not_(eq(b, ZERO))
    if a.op == "add" and a.a[1].op == "int" and a.a[1].a[0] == 1:
        return lt(a.a[0], b)
    if b.op == "int" and a.op not in ("add",) and nonneg(a):
        return lt(a, I(b.a[0] + 1))
    if a.op == "int" and nonneg(b) and b.op != "add":
        return lt(I(a.a[0] - 1), b)
    return raw("le", a, b)


def nonneg(t):
    return t.op in ("len", "cparam", "bit") or (t.op == "rem" and nonneg(t.a[0])) or (t.op == "min" and nonneg(t.a[0]) and nonneg(t.a[1])) or (
        t.op == "sym" and isinstance(t.a[0], tuple) and t.a[0][-1] == "usize") or (t.op == "int" and t.a[0] >= 0) or t.op in ("pow", "satsub") or (
        t.op in ("add", "mul", "div") and all(nonneg(x) for x in t.a))


def eq(a, b):
    if a is b:
        return TRUE
    x, y = ordc(a), ordc(b)
    if x is not None and y is not None:
        return B(x == y)
    for p, q in ((a, b), (b, a)):
        if q is TRUE:
            return p
        if q is FALSE:
            return not_(p)
    if a.op in ("bool", "bytes", "str") and b.op == a.op:
        return B(a is b)
    # parity: x % 2 is 0 or 1
    for p, q in ((a, b), (b, a)):
        if p.op == "rem" and p.a[1].op == "int" and p.a[1].a[0] == 2 and q.op == "int":
            if q.a[0] == 0:
                return not_(raw("eq", p, ONE))
            if q.a[0] == 1:
                return raw("eq", p, ONE)
            return FALSE
    if a.op == "agg" and b.op == "agg":
        if a.a[1] != b.a[1] and a.a[0] == b.a[0]:
            return FALSE
        if a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            r = TRUE
            for p, q in zip(a.a[2:], b.a[2:]):
                r = and_(r, eq(p, q))
            return r
    if num(a) is not None or (num(b) is None and a.id > b.id):
        a, b = b, a
    if a.op == "add" and a.a[1].op == "int":
        if b.op == "int":
            return eq(a.a[0], I(b.a[0] - a.a[1].a[0]))
        if b.op == "add" and b.a[1].op == "int":
            return eq(a.a[0], add(b.a[0], I(b.a[1].a[0] - a.a[1].a[0])))
        if a.a[0] is b:
            return B(a.a[1].a[0] == 0)
    if b.op == "add" and b.a[1].op == "int" and b.a[0] is a:
        return B(b.a[1].a[0] == 0)
    if b.op == "int" and b.a[0] < 0 and nonneg(a):
        return FALSE
    if b is ZERO and a.op == "pow" and a.a[0].op == "int" and a.a[0].a[0] > 0:
        return FALSE
    return raw("eq", a, b)


def not_(a):
    if a.op == "bool":
        return B(not a.a[0])
    if a.op == "not":
        return a.a[0]
    if a.op == "lt":
        return le(a.a[1], a.a[0])
    if a.op == "le":
        return lt(a.a[1], a.a[0])
    if a.op == "or":
        return and_(not_(a.a[0]), not_(a.a[1]))
    return raw("not", a)


def and_(a, b):
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return raw("and", a, b)


def or_(a, b):
    if a is FALSE or a is b:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    return raw("or", a, b)


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if c.op == "not":
        return ite(c.a[0], b, a)
    if c.op == "lt" or c.op == "le":
        x, y = c.a
        # x < y ? x : y
        if (a is x and b is y):
            return min_(x, y)
        if (a is y and b is x):
            return max_(x, y)
    return raw("ite", c, a, b)


def is_(v, k):
    if v.op == "agg":
        return B(v.a[1] == k)
    if v.op == "ite":
        return ite(v.a[0], is_(v.a[1], k), is_(v.a[2], k))
    if v.op == "fupd":
        return is_(v.a[0], k)
    if v.op == "int":
        return B(v.a[0] == k)
    return raw("is", v, k)


def fld(v, var, i):
    if v.op == "agg":
        if v.a[0] in UNIONS:
            return v.a[2]
        if i + 2 < len(v.a):
            return v.a[2 + i]
    if v.op == "fupd":
        if v.a[2] == i and (v.a[1] == var or v.a[1] is None or var is None):
            return v.a[3]
        return fld(v.a[0], var, i)
    if v.op == "ite":
        return ite(v.a[0], fld(v.a[1], var, i), fld(v.a[2], var, i))
    return raw("fld", v, var, i)


UNIONS = set()


def fupd(v, var, i, x):
    if v.op == "agg" and i + 2 < len(v.a):
        l = list(v.a)
        l[2 + i] = x
        return raw("agg", *l)
    if v.op == "fupd" and v.a[2] == i and v.a[1] == var:
        return fupd(v.a[0], var, i, x)
    if v.op == "fupd" and v.a[2] > i:
        return raw("fupd", fupd(v.a[0], var, i, x), v.a[1], v.a[2], v.a[3])
    if fld(v, var, i) is x:
        return v
    return raw("fupd", v, var, i, x)


def idx(v, i):
    if v.op == "repeat":
        return v.a[0]
    if v.op == "store":
        if v.a[1] is i:
            return v.a[2]
        if distinct(v.a[1], i):
            return idx(v.a[0], i)
    if v.op == "agg" and v.a[0] == "array" and i.op == "int" and 0 <= i.a[0] < len(v.a) - 2:
        return v.a[2 + i.a[0]]
    if v.op == "vpush":
        n = len_(v.a[0])
        if n is i:
            return v.a[1]
        if n.op == "int" and i.op == "int":
            return v.a[1] if n.a[0] == i.a[0] else idx(v.a[0], i)
    if v.op == "mapseq":
        b, lo, hi, body = v.a
        return subst(body, {b: add(lo, i)})
    if v.op == "arrlam":
        b, lo, hi, body, base = v.a
        if lo is ZERO and len_(base) is hi:
            return subst(body, {b: i})
        return ite(and_(le(lo, i), lt(i, hi)), subst(body, {b: i}), idx(base, i))
    if v.op == "subseq":
        return idx(v.a[0], add(v.a[1], i))
    if v.op == "setlen":
        return idx(v.a[0], i)
    if v.op == "ite":
        return ite(v.a[0], idx(v.a[1], i), idx(v.a[2], i))
    return raw("idx", v, i)


def distinct(a, b):
    d = sub(a, b)
    n = num(d)
    return n is not None and n != 0


def store(v, i, x):
    if v.op == "store" and v.a[1] is i:
        return store(v.a[0], i, x)
    if v.op == "agg" and v.a[0] == "array" and i.op == "int" and 0 <= i.a[0] < len(v.a) - 2:
        l = list(v.a)
        l[2 + i.a[0]] = x
        return raw("agg", *l)
    if v.op == "ite":
        return ite(v.a[0], store(v.a[1], i, x), store(v.a[2], i, x))
    if idx(v, i) is x:
        return v
    return raw("store", v, i, x)


def len_(v):
    o = v.op
    if o == "repeat":
        return v.a[1]
    if o == "store":
        return len_(v.a[0])
    if o == "agg" and v.a[0] == "array":
        return I(len(v.a) - 2)
    if o == "vnew":
        return ZERO
    if o == "chunks":
        return div(len_(v.a[0]), v.a[1])
    if o == "flat1":
        return raw("len1", v.a[0])
    if o == "flat" or o == "memory":
        return mul(raw("rows", v.a[0]), raw("cols", v.a[0]))
    if o == "vpush" or o == "hpush":
        return add(len_(v.a[0]), ONE)
    if o == "hreplace":
        return len_(v.a[0])
    if o == "vpopped":
        return sub(len_(v.a[0]), ONE)
    if o == "mapseq":
        return sub(v.a[2], v.a[1])
    if o == "arrlam":
        return len_(v.a[4])
    if o == "subseq":
        return sub(v.a[2], v.a[1])
    if o == "setlen":
        return v.a[1]
    if o == "sorted":
        return len_(v.a[0])
    if o == "ite":
        return ite(v.a[0], len_(v.a[1]), len_(v.a[2]))
    if o == "str":
        return I(len(v.a[0]))
    return raw("len", v)


def sqrt(a):
    return raw("sqrt", a)


SIMP = dict(add=add, sub=sub, mul=mul, div=div, rem=rem, neg=neg, powi=powi, pow=pow_, min=min_, max=max_, satsub=satsub,
            abs=abs_, lt=lt, le=le, eq=eq, ite=ite, fld=fld, fupd=fupd, idx=idx, store=store, len=len_, sqrt=sqrt)
SIMP["not"] = not_
SIMP["and"] = and_
SIMP["or"] = or_
SIMP["is"] = is_


def rebuild(op, a):
    f = SIMP.get(op)
    if op == "ref":
        return mkref(a[0], a[1:])
    if op in BINDERS:
        return bind(op, *a)
    return f(*a) if f else raw(op, *a)


def subst(t, m, memo=None):
    """Replace the keys of m (any terms) in t."""
    if memo is None:
        memo = {}
    bvkeys = all(k.op == "bv" for k in m)
    phkeys = None
    if all(k.op == "phi" for k in m):
        phkeys = frozenset(k.a[0] for k in m)

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if bvkeys and not (x.bvs):
            return x
        if phkeys is not None and not (x.ph & phkeys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        new = []
        ch = False
        for y in x.a:
            if isinstance(y, T):
                z = go(y)
                ch = ch or z is not y
                new.append(z)
            else:
                new.append(y)
        r = rebuild(x.op, new) if ch else x
        memo[x] = r
        return r

    return go(t)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


def has(t, pred):
    return any(pred(x) for x in walk(t))


# --- references -------------------------------------------------------------------------------
# ref(cell, proj...) ; proj = pf(variant, i) | pi(index) | ps(lo, hi) | ptop()

def pf(var, i):
    return raw("pf", var, i)


def pi(i):
    return raw("pi", i)


def ps(lo, hi):
    return raw("ps", lo, hi)


PTOP = raw("ptop")


def Dcell(p):
    return raw("D", p)


def mkref(cell, projs):
    # collapse slices of slices / elements of slices
    out = []
    for p in projs:
        if out and out[-1].op == "ps":
            q = out[-1]
            if p.op == "pi":
                out[-1] = pi(add(q.a[0], p.a[0]))
                continue
            if p.op == "ps":
                out[-1] = ps(add(q.a[0], p.a[0]), add(q.a[0], p.a[1]))
                continue
        out.append(p)
    if cell.op == "D" and not out:
        return cell.a[0]
    if cell.op == "D" and cell.a[0].op == "ref":
        return mkref(cell.a[0].a[0], list(cell.a[0].a[1:]) + out)
    return raw("ref", cell, *out)


def place_of(v):
    """(cell, projs) a pointer value points to."""
    if v.op == "ref":
        return v.a[0], v.a[1:]
    return Dcell(v), ()


def project(v, p):
    if p.op == "pf":
        return fld(v, p.a[0], p.a[1])
    if p.op == "pi":
        return idx(v, p.a[0])
    if p.op == "ps":
        if p.a[0] is ZERO and p.a[1] is len_(v):
            return v
        return raw("subseq", v, p.a[0], p.a[1])
    if p.op == "ptop":
        return htop(v)
    raise ValueError(p)


def htop(h):
    return raw("htop", h)


def update(v, projs, x):
    if not projs:
        return x
    p = projs[0]
    rest = projs[1:]
    y = update(project(v, p), rest, x) if rest else x
    if p.op == "pf":
        return fupd(v, p.a[0], p.a[1], y)
    if p.op == "pi":
        return store(v, p.a[0], y)
    if p.op == "ptop":
        return raw("hreplace", v, y)
    if p.op == "ps":
        return raw("subupd", v, p.a[0], p.a[1], y)
    raise ValueError(p)


def show(t, depth=8):
    if not isinstance(t, T):
        return repr(t) if not isinstance(t, str) else t
    o, a = t.op, t.a
    if depth <= 0:
        return "…"
    s = lambda x: show(x, depth - 1)
    if o in ("int", "bool", "flt", "str"):
        return str(a[0])
    if o == "sym":
        return str(a[0][0] if isinstance(a[0], tuple) else a[0])
    if o == "cparam":
        return a[0]
    if o == "bv":
        return "j%s" % a[0]
    if o == "phi":
        return "φ%s.%s" % (a[0], a[1])
    if o == "fld":
        return "%s.%s%s" % (s(a[0]), "" if a[1] is None else "%s:" % a[1], a[2])
    if o == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "D":
        return "*%s" % s(a[0])
    if o == "deref":
        return "(*%s)" % s(a[0])
    if o == "L":
        return "L%s_%s" % a[:2]
    if o == "ref":
        return "&%s%s" % (s(a[0]), "".join(s(p) for p in a[1:]))
    if o == "pf":
        return ".%s%s" % ("" if a[0] is None else "%s:" % a[0], a[1])
    if o == "pi":
        return "[%s]" % s(a[0])
    if o == "ps":
        return "[%s..%s]" % (s(a[0]), s(a[1]))
    B2 = {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "lt": "<", "le": "<=", "eq": "==", "and": "&&", "or": "||"}
    if o in B2:
        return "(%s %s %s)" % (s(a[0]), B2[o], s(a[1]))
    if o == "agg":
        k = a[0] if isinstance(a[0], str) else a[0][0] + ":" + str(a[0][1]).split("::")[-1]
        k = k.split("::")[-1]
        return "%s#%s{%s}" % (k, a[1], ", ".join(s(x) for x in a[2:]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
