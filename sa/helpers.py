"""The public distance functions, the accessors, and the order of candidates, against closed forms.

The value of a function is the gated closed form the engine computes for it; it is compared, as a polynomial in
the components with conditionals split, with the documented one."""
from core import *


def sq(a, b, D, keep=None):
    """sum over the dimensions of (a-b)^2; keep: bound variable -> condition"""
    v = bv()
    d = sub(idx(a, v), idx(b, v))
    t = mul(d, d)
    if keep is not None:
        t = keep(v, t)
    return bind("sum", v, ZERO, D, t)


def status(r, *got):
    return OK_ if r is True else (UNK if r is None or imprecise(*got) else BAD)


class Helpers:
    RULE = "distance"

    def __init__(self, obs, pkg, cfg, roles):
        self.obs, self.pkg, self.cfg, self.R = obs, pkg, cfg, roles
        self.prog = program(pkg, cfg)

    def fns(self, name, n):
        for k in find_fn(self.prog, name):
            b = self.prog.bodies[k]
            if b.get("exported") and b["kind"] == "Fn" and b["argc"] == n:
                yield k, b

    def run(self):
        for name, n, f in (("squared_euclidean", 2, self.plain), ("squared_euclidean_axis", 3, self.split), ("calc_dist_sq_to_space", 3, self.box),
                           ("new_best", 4, self.update), ("new_best_short", 4, self.update)):
            for k, b in self.fns(name, n):
                self.obs.note("public distance functions")
                try:
                    eng, outs = summarise(self.pkg, self.cfg, k)
                    self.D = raw("cparam", [g[0] for g in b["generics"] if g[1] == "const"][0])
                    f(k, b, eng, outs)
                except Imprecise as e:
                    self.obs.add(self.RULE, k, b["span"], UNK, "not analysed: %s" % e)
                except (IndexError, KeyError) as e:
                    self.obs.add(self.RULE, k, b["span"], UNK, "not of the expected form")

    def paths(self, k, b, outs):
        for s, v in outs:
            g = guards(s.events())
            if isinstance(v, Panic):
                if alg.contradict(g):
                    continue
                op = any(e.k in ("opaque",) for e in allevents(s.events())) or any(imprecise(c) for c, _ in g)
                self.obs.add(self.RULE, k, b["span"], UNK if op else BAD, "a distance function panics: %s" % v)
                continue
            self.obs.note("paths of distance functions")
            yield s, v, g

    # -- values
    def value(self, k, b, outs, expect, what, fa=None):
        for s, v, g in self.paths(k, b, outs):
            for e in allevents(s.events()):
                if e.k == "w" and e.a[0].op == "D":
                    self.obs.add(self.RULE, k, e.sp, BAD, "a distance function changes its argument")
            parts = expect if isinstance(expect, tuple) else (expect,)
            got = (v,) if not isinstance(expect, tuple) else tuple(project(v, ("f", None, i)) for i in range(len(parts))) if v.op != "agg" else tuple(v.a[2:])
            if isinstance(expect, tuple) and v.op == "agg":
                got = tuple(fld(v, None, i) for i in range(len(parts)))
            for nm, x, w in zip(what, got, parts):
                r = x is w or alg.same(x, w, assume=alg.lincons(g), fa=fa)
                if r is True and x is not w and alg.cancels(x):
                    self.obs.add(self.RULE, k, b["span"], BAD, "the %s is the difference of two sums of squares: what it amounts to may be lost to rounding: %s" % (nm, show(x, 8)))
                    continue
                self.obs.add(self.RULE, k, b["span"], status(r, x), "" if r is True else "the %s is %s" % (nm, show(x, 8)))

    def plain(self, k, b, eng, outs):
        a, c = [deref(p) for p in params(b)]
        self.value(k, b, outs, sq(a, c, self.D), ("squared distance",))

    def split(self, k, b, eng, outs):
        ps = params(b)
        a, c, ax = deref(ps[0]), deref(ps[1]), ps[2]
        on = sq(a, c, self.D, lambda v, t: ite(eq(v, ax), t, F(0.0)))
        off = sq(a, c, self.D, lambda v, t: ite(eq(v, ax), F(0.0), t))
        self.value(k, b, outs, (sq(a, c, self.D), on, off), ("squared distance", "part along the axis", "part off the axis"))

    def box(self, k, b, eng, outs):
        q, lo, hi = [deref(p) for p in params(b)]
        v = bv()
        d = sub(idx(q, v), max_(min_(idx(q, v), idx(hi, v)), idx(lo, v)))
        w = bind("sum", v, ZERO, self.D, mul(d, d))
        self.value(k, b, outs, w, ("distance to the box",), fa=lambda x: [(alg.lin2(idx(lo, x), idx(hi, x)), "<=")])

    # -- updates of the best so far
    def update(self, k, b, eng, outs):
        ps = params(b)
        q, cand = deref(ps[0]), ps[1]
        t = tyref(b, ptype(b, 1))
        arr = deref(cand)
        if t["k"] != "array":
            arr = deref(fld(arr, None, self.R.p_ptr))
        best, nb = place_of(ps[2]), place_of(ps[3])
        b0, n0 = deref(ps[2]), deref(ps[3])
        dist = sq(q, arr, self.D)
        ret = b["types"][b["locals"][0]]["k"] == "bool"
        for s, v, g in self.paths(k, b, outs):
            evs = s.events()
            nbv, bvl = eng.read(s, *nb), eng.read(s, *best)
            rel = self.relation(evs, g, dist, b0)
            site = b["span"]
            kept_n, new_n = nbv is n0, nbv is cand
            kept_b = bvl is b0 or alg.same(bvl, b0, assume=alg.lincons(g)) is True
            new_b = not (bvl is b0) and (bvl is dist or alg.same(bvl, dist, assume=alg.lincons(g)) is True)
            imp = imprecise(nbv, bvl) or any(e.k == "opaque" for e in allevents(evs))
            bad = BAD if not imp else UNK
            if not (kept_n or new_n) or not (kept_b or new_b):
                self.obs.add(self.RULE, k, site, bad, "afterwards the best is %s at distance %s" % (show(nbv, 5), show(bvl, 6)))
                continue
            if new_n != new_b and not (new_n and bvl is b0 and rel == "eq"):
                self.obs.add(self.RULE, k, site, bad, "only one of the best candidate and its distance is replaced")
                continue
            if new_n:
                if rel == "lt":
                    self.obs.add(self.RULE, k, site, OK_)
                else:
                    self.obs.add(self.RULE, k, site, bad if rel else UNK, "the best is replaced although the candidate need not be closer")
            else:
                if rel == "ge":
                    self.obs.add(self.RULE, k, site, OK_)
                else:
                    self.obs.add(self.RULE, k, site, bad if rel else UNK, "a closer candidate does not replace the best")
            if ret:
                tr = True if v is TRUE else False if v is FALSE else None
                self.obs.add(self.RULE, k, site, None if tr is None else tr == new_n, "" if tr == new_n else "the value returned does not tell whether the best was replaced")

    def relation(self, evs, g, dist, best):
        """what the path knows: 'lt' dist < best, 'ge' best <= dist, 'le', 'gt', 'free' (nothing), None unknown"""
        facts = list(g)
        vague = False
        for e in evs:
            if e.k == "loop":
                rec, xi = e.a
                # the last round that went on: the facts hold of the next values of the loop variables
                m = {}
                for p in rec.phis:
                    c = rec.closed.get(p.sym) if rec.closed else None
                    if c is not None:
                        m[p.sym] = c
                for n, path in enumerate(rec.backs):
                    for c, v in guards(path.events):
                        x = self.after(c, rec, n)
                        if x is not None and len(rec.backs) == 1:
                            facts.append((x, v))
        best_rel = "free"
        for c, v in facts:
            if c.op not in ("lt", "le") or best not in c.a:
                continue
            o = c.a[0] if c.a[1] is best else c.a[1]
            left = c.a[1] is best          # o ? best
            same = o is dist or alg.same(o, dist) is True
            if left:
                rel = ("lt" if v else "ge") if c.op == "lt" else ("le" if v else "gt")
            else:
                rel = ("gt" if v else "le") if c.op == "lt" else ("ge" if v else "lt")
            if same:
                if rel in ("lt", "ge"):
                    return rel
                if rel == "gt":
                    return "ge"
                best_rel = "le"
            elif rel in ("ge", "gt") and self.partial(o, evs, dist):
                return "ge"
            elif imprecise(o):
                vague = True
        return None if vague and best_rel == "free" else best_rel

    def after(self, c, rec, n):
        """the condition of back path n in terms of the values after the loop: next values become closed values"""
        changed = [False]

        def go(t):
            for p in rec.phis:
                if p.nexts[n] is t and p.sym is not t and rec.closed.get(p.sym) is not None:
                    changed[0] = True
                    return rec.closed[p.sym]
            return t
        if c.op not in ("lt", "le"):
            return None
        a = [go(x) for x in c.a]
        return raw(c.op, *a) if changed[0] else None

    def partial(self, o, evs, dist):
        """o is a partial sum of the squares that make up dist"""
        for e in evs:
            if e.k != "loop":
                continue
            rec, xi = e.a
            for p in rec.phis:
                if rec.closed.get(p.sym) is not None and alg.same(rec.closed[p.sym], dist) is True:
                    for nx in p.nexts:
                        if o is nx or o is p.sym or alg.same(o, nx) is True:
                            return True
        return False


class Ordering:
    """The comparison a heap of candidates uses (PartialOrd) orders them by distance."""
    RULE = "order"
    METHODS = ("partial_cmp", "lt", "le", "gt", "ge")

    def __init__(self, obs, pkg, cfg, key, shape):
        self.obs, self.pkg, self.cfg, self.key, self.cs = obs, pkg, cfg, key, shape
        self.prog = program(pkg, cfg)

    @staticmethod
    def of(prog, cadt):
        """PartialOrd methods of the candidate type against itself"""
        for k, b in sorted(prog.bodies.items()):
            if not (b.get("impl_trait") or "").endswith("cmp::PartialOrd") or not b.get("bbs") or b["name"] not in Ordering.METHODS or b["argc"] != 2:
                continue
            ok = True
            for i in range(2):
                t = ptype(b, i)
                if t["k"] != "ref" or tyref(b, t)["k"] != "adt" or tyref(b, t)["path"] != cadt:
                    ok = False
            if ok:
                yield k

    def run(self):
        b = self.prog.bodies[self.key]
        ps = params(b)
        x, y = deref(ps[0]), deref(ps[1])
        d1, d2 = self.cs.cand_dist(x), self.cs.cand_dist(y)
        try:
            eng, outs = summarise(self.pkg, self.cfg, self.key)
        except Imprecise as e:
            self.obs.add(self.RULE, self.key, b["span"], UNK, "not analysed: %s" % e)
            return
        self.obs.note("orders of candidates")
        for w, nm in ((-1, "closer than"), (1, "further than"), (0, "as far as")):
            fact = (lt(d1, d2), True) if w < 0 else (lt(d2, d1), True) if w > 0 else (eq(d1, d2), True)
            for s, v in outs:
                g = guards(s.events())
                if alg.contradict(g + [fact]):
                    continue
                if isinstance(v, Panic):
                    # an order that fails on ordinary values
                    if w and not any(imprecise(c) for c, _ in g) and not any(e.k == "opaque" for e in s.events()):
                        self.obs.add(self.RULE, self.key, b["span"], BAD, "comparing a candidate %s another panics" % nm)
                    continue
                got = self.sign(v, d1, d2, w, g + [fact])
                if got == "any":
                    continue
                if w == 0:
                    continue        # candidates at one distance may be in any order
                st = OK_ if got is True else UNK if got is None or imprecise(v) else BAD
                self.obs.add(self.RULE, self.key, b["span"], st, "" if st == OK_ else "a candidate %s another is not ordered by distance: %s" % (nm, show(v, 7)))

    def sign(self, v, d1, d2, w, facts):
        """does the value v of the method agree with world w?  True / False / None"""
        m = self.prog.bodies[self.key]["name"]
        if m != "partial_cmp":
            want = {"lt": w < 0, "le": w <= 0, "gt": w > 0, "ge": w >= 0}[m]
            if v.op == "bool":
                return v.a[0] == want
            if alg.implies(facts, v, want, False):
                return True
            if v.op in ("lt", "le", "not", "eq"):
                return False
            return None
        if v.op == "ite":
            r = [self.sign(x, d1, d2, w, facts + [(v.a[0], c)]) for x, c in ((v.a[1], True), (v.a[2], False)) if not alg.contradict(facts + [(v.a[0], c)])]
            return None if None in r else all(r)
        if v.op == "agg" and v.a[0].endswith("Option"):
            if v.a[1] == 0:
                return False
            return self.osign(v.a[2], w, facts)
        return None

    def osign(self, c, w, facts):
        from models import ordconst
        k = ordconst(c)
        if k is not None:
            return k == w
        if c.op == "ite":
            r = [self.osign(x, w, facts + [(c.a[0], t)]) for x, t in ((c.a[1], True), (c.a[2], False)) if not alg.contradict(facts + [(c.a[0], t)])]
            return None if None in r else all(r)
        if c.op == "ordthen":
            return self.osign(c.a[0], w, facts) or None
        if c.op == "cmp":
            a, b = c.a
            if alg.implies(facts, lt(a, b), True, False):
                return w < 0
            if alg.implies(facts, lt(b, a), True, False):
                return w > 0
            if a.op == b.op and a.op in ("sqrt", "neg", "recip") and a.a and b.a:
                return self.osign(raw("cmp", a.a[0], b.a[0]) if a.op == "sqrt" else raw("cmp", b.a[0], a.a[0]), w, facts)
            if a.op == b.op and a.op in ("single", "toint", "floor", "ceil", "round", "trunc"):
                return False            # different distances may round to one value
            plain = all(z.op in ("fld", "deref", "sym", "idx", "int", "D", "ref", "agg") for t in (a, b) for z in walk(t))
            return False if plain or alg.implies(facts, eq(a, b), True, False) else None
        return None
