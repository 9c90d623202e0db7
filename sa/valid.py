"""Which checks for NaN and infinity hold on a path, judged by evaluating the path's conditions in
the possible worlds of one component: NaN, infinite, finite."""
from core import *

NAN, INF, FIN = "NaN", "infinite", "finite"


def atom(t, world):
    if t.op == "isnan":
        return world == NAN
    if t.op == "isinf":
        return world == INF
    if t.op == "isfinite":
        return world == FIN
    return None


def ev(t, is_comp, world):
    """truth of t (True / False / None) where the components satisfying is_comp are of that world"""
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op in ("isnan", "isinf", "isfinite"):
        return atom(t, world) if is_comp(t.a[0]) else None
    if t.op == "not":
        r = ev(t.a[0], is_comp, world)
        return None if r is None else not r
    if t.op in ("and", "or"):
        rs = [ev(x, is_comp, world) for x in t.a]
        if t.op == "and":
            return False if False in rs else True if all(r is True for r in rs) else None
        return True if True in rs else False if all(r is False for r in rs) else None
    if t.op == "ite":
        c = ev(t.a[0], is_comp, world)
        if c is not None:
            return ev(t.a[1] if c else t.a[2], is_comp, world)
        a, b = ev(t.a[1], is_comp, world), ev(t.a[2], is_comp, world)
        return a if a == b else None
    if t.op in ("forall", "exists"):
        b, lo, hi, body = open_(t)
        r = ev(body, is_comp, world)
        if t.op == "forall" and r is True:
            return True
        if t.op == "exists" and r is False:
            return False
    return None


def offset(t, b):
    """c when t = b + c with a number c"""
    d = sub(t, b)
    return d.a[0] if d.op == "int" else None


def falls_short(end, n):
    """is end, a function of the length n alone, less than n for some length?"""
    for k in range(1, 65):
        e = subst(end, {n: I(k)})
        if e.op == "int" and e.a[0] < k:
            return True
    return False


class Finite:
    """Checks on the components of arr, an array (depth 1) or a slice of arrays (depth 2)."""

    def __init__(self, facts, arr, depth, dims=(), events=()):
        self.arr, self.depth, self.dims = arr, depth, dims
        self.got = set()
        self.vague = False
        for c, v in facts:
            if has(c, lambda x: x.op in ("isnan", "isinf", "isfinite")) or has(c, lambda x: x is arr):
                self.fact(c, v, [], [])
        for want in ("isnan", "isinf"):
            if want not in self.got and not self.vague:
                q = lambda t: has(t, lambda x: x.op in (want, "isfinite") and has(x, lambda y: y is arr))
                if any(q(e.a[0]) for e in allevents(events) if e.k == "guard" and e.a[0] not in [c for c, v in facts]) and \
                        not any(c.op in ("forall", "exists") and q(c) for c, v in facts):
                    self.vague = True

    def blocks(self, cur, o, i, size):
        """do blocks of size (outer binder o), each walked by the inner binder i, cover every index of cur?"""
        (b, lo, hi), (b2, lo2, hi2) = o, i
        n = len_(cur)
        if lo is ZERO and lo2 is ZERO:
            at = mul(b, size)
            if hi2 is size or alg.same(hi2, size) is True:
                if mul(hi, size) is n or alg.same(mul(hi, size), n) is True:
                    return True
            elif hi is div(sub(add(n, size), ONE), size) or hi is div(add(n, sub(size, ONE)), size):
                if alg.same(hi2, sub(min_(add(at, size), n), at)) is True:
                    return True
        cs = {x.a[0] for t in (hi, hi2, size) for x in walk(t) if x.op == "int" and 1 < x.a[0] < 10 ** 6}
        for k in sorted(set(range(1, 65)) | {c + d for c in cs for d in (-1, 0, 1)} | {2 * c + 1 for c in cs}):
            m = {n: I(k), alg.THREADS: I(3)}
            l, h, z = subst(lo, m), subst(hi, m), subst(size, m)
            if not all(x.op == "int" for x in (l, h, z)) or z.a[0] < 1 or h.a[0] - l.a[0] > 100:
                return None
            end = 0
            for j in range(l.a[0], h.a[0]):
                l2, h2 = (subst(subst(x, m), {b: I(j)}) for x in (lo2, hi2))
                if l2.op != "int" or h2.op != "int":
                    return None
                if h2.a[0] <= l2.a[0]:
                    continue
                if j * z.a[0] + l2.a[0] > end:
                    return False
                end = max(end, j * z.a[0] + h2.a[0])
            if end < k:
                return False
        return None

    def ranges(self, rs):
        """do the ranges cover every index of the nested arrays?"""
        cur = self.arr
        for b, lo, hi, off in rs:
            if isinstance(b, tuple):
                r = self.blocks(cur, b, lo, hi)
                if not r:
                    return r
                cur = idx(cur, off)
                continue
            full = offset(add(lo, I(off)), ZERO)
            n = len_(cur)
            end = add(hi, I(off))
            if full is None:
                return None
            if full > 0:
                return False
            if not any(end is x for x in (n,) + (self.dims if cur is not self.arr or self.depth == 1 else ())):
                d = offset(end, n)
                if d is None:
                    ds = [offset(end, x) for x in self.dims]
                    ds = [x for x in ds if x is not None]
                    d = ds[0] if ds else None
                if d is None:
                    return False if falls_short(end, n) else None
                if d < 0:
                    return False
            cur = idx(cur, add(b, I(off)))
        return True

    def fact(self, c, v, binders, outer):
        if c.op == "not":
            return self.fact(c.a[0], not v, binders, outer)
        if c.op == "and" and v or c.op == "or" and not v:
            for x in c.a:
                self.fact(x, v, binders, outer)
            return
        if c.op == "forall" and v or c.op == "exists" and not v:
            b, lo, hi, x = open_(c)
            return self.fact(x, v, binders + [(b, lo, hi)], outer)
        # a clause over the binders: which worlds of the component does it exclude?
        comps = set(x.a[0] for x in walk(c) if x.op in ("isnan", "isinf", "isfinite"))
        if not comps:
            if binders and has(c, lambda x: x is self.arr) and not all(x.op in ("lt", "le", "eq", "len") for x in (c,)):
                self.vague = True
            return
        for comp in comps:
            rs = self.place(comp, binders)
            if rs is None:
                if has(comp, lambda x: x is self.arr) and not self.point(comp):
                    self.vague = True
                elif not has(comp, lambda x: x is self.arr) and imprecise(comp):
                    self.vague = True
                continue
            full = self.ranges(rs)
            for w, nm in ((NAN, "isnan"), (INF, "isinf")):
                r = ev(c, lambda x: x is comp, w)
                if r is (not v):
                    if full:
                        self.got.add(nm)
                    elif full is None:
                        self.vague = True
                elif r is None and len(comps) > 1:
                    self.vague = True

    def point(self, comp):
        """a fact about one fixed component"""
        return not comp.bvs

    def place(self, comp, binders):
        """[(binder, lo, hi, offset)] when comp is arr[b1 + c1][b2 + c2].."""
        path = []
        t = comp
        while t is not self.arr:
            if t.op != "idx":
                return None
            path.append(t.a[1])
            t = t.a[0]
        path.reverse()
        if len(path) != self.depth:
            return None
        res = []
        for ix in path:
            two = [x for x in binders if has(ix, lambda y: y is x[0])]
            if len(two) == 2:
                for o, i in (two, two[::-1]):
                    size = [t.a[0] if t.a[1] is o[0] else t.a[1] for t in walk(ix) if t.op == "mul" and o[0] in t.a]
                    if len(size) == 1 and not has(size[0], lambda y: y is o[0] or y is i[0]) and alg.same(ix, add(mul(o[0], size[0]), i[0])) is True:
                        res.append((o, i, size[0], ix))
                        break
                else:
                    return None
                continue
            for b, lo, hi in binders:
                if has(ix, lambda x: x is b):
                    o = offset(ix, b)
                    if o is None:
                        return None
                    res.append((b, lo, hi, o))
                    break
            else:
                return None
        return res

    def status(self, want):
        return OK_ if want in self.got else UNK if self.vague else BAD


def excluded_when_finite(facts, is_comp, dims=None):
    """the facts cannot all hold when every component is finite -> True; cannot tell -> None"""
    vague = False
    for c, v in facts:
        r = ev(c, is_comp, FIN)
        if r is (not v):
            return True
        if r is None and has(c, lambda x: x.op in ("isnan", "isinf", "isfinite", "havoc", "call", "callret", "cas", "closed")):
            vague = True
    return None if vague else False


ERRORS = {"InvalidInputData", "InvalidAxis"}


class QueryErrors:
    """Every error of a query function has its reason in the query, and is the error for that reason."""
    RULE = "query-errors"

    def __init__(self, obs, pkg, cfg, entry):
        self.obs, self.pkg, self.cfg, self.E = obs, pkg, cfg, entry

    def run(self):
        E, obs = self.E, self.obs
        fn = E.key
        try:
            eng, outs = summarise(self.pkg, self.cfg, fn)
        except Imprecise as e:
            obs.add(self.RULE, fn, E.site, UNK, "not analysed: %s" % e)
            return
        q = deref(E.ps[E.role["queries" if E.par else "coords"]])

        def comp(t):
            d = 0
            while t.op == "idx":
                t = t.a[0]
                d += 1
            return t is q and d == (2 if E.par else 1)
        for s, v in outs:
            if isinstance(v, Panic) or v.op != "agg" or not (str(v.a[0]).split("::")[-1] == "Result" and v.a[1] == 1):
                continue
            evs = s.events()
            facts = guards(evs)
            if not E.feasible(facts):
                continue
            obs.note("error paths")
            site = [e.sp for e in evs if e.k == "guard"][-1:] or [E.site]
            name = self.variant(v.a[2])
            nonfin = excluded_when_finite(facts, comp)
            axis = E.axis is not None and alg.implies(facts, le(E.D, E.axis))
            if axis:
                ok = name in (None, "InvalidAxis")
                obs.add(self.RULE, fn, site[0], OK_ if ok else BAD, "an axis outside 0..D is refused as such" if ok else "an axis outside 0..D is refused as %s" % name)
            elif nonfin:
                ok = name in (None, "InvalidInputData")
                obs.add(self.RULE, fn, site[0], OK_ if ok else BAD, "a NaN or infinite component is refused as such" if ok else "a NaN or infinite component is refused as %s" % name)
                pl = v.a[2].a[2] if v.a[2].op == "agg" and len(v.a[2].a) > 2 and name else None
                if ok and pl is not None:
                    bad = [x.a[0].a[0] for c, val in facts for x in walk(c) if x.op in ("isnan", "isinf", "isfinite") and x.a[0].op == "idx" and not x.bvs]
                    good = any(pl is b or pl is sym_ref(b) for b in bad)
                    if bad:
                        obs.add(self.RULE, fn, site[0], OK_ if good else UNK, "the error names the offending point" if good else "payload %s" % show(pl, 5))
            else:
                bad = nonfin is False and facts and not any(imprecise(c) for c, _ in facts) and not any(e.k == "opaque" for e in allevents(evs))
                obs.add(self.RULE, fn, site[0], BAD if bad else UNK, "a valid query may be refused as %s" % name)

    def variant(self, t):
        if t is None or t.op != "agg":
            return None
        for p, a in self.E.prog.adts.items():
            if p == t.a[0] or p.split("::")[-1] == str(t.a[0]).split("::")[-1]:
                return a["variants"][t.a[1]]["name"]
        return None


def sym_ref(t):
    return raw("ref", t)
