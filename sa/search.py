"""Coverage analysis of the tree descent: every point of the subtree handed to the search is either
evaluated against the running best, or excluded by a valid lower bound that is not below it.

Obligations are propagated over the control paths of the (recursive) search function:
  cover(node)  -> eval(stem point), cover(left), cover(right)  |  all points of a leaf
  queue entry  -> what its consumer discharges, checked where it is pushed
"""
from core import *


_REST = {}


def leaves_entries(pkg, cfg, key, R):
    """May the search return with entries in its queue, the best distance being zero?"""
    k = (pkg, cfg, key)
    if k not in _REST:
        p = SearchProof(Obs(), pkg, cfg, key, R)
        if not p.missing:
            for s, v in p.outs:
                if not isinstance(v, Panic):
                    p.drained(s, s.events())
        _REST[k] = p.rest
    return _REST[k]


class SearchProof:
    def __init__(self, obs, pkg, cfg, key, roles):
        self.obs = obs
        self.pkg, self.cfg, self.key = pkg, cfg, key
        self.prog = program(pkg, cfg)
        self.R = roles
        self.body = self.prog.bodies[key]
        self.eng, self.outs = summarise(pkg, cfg, key, snap=True)
        self.ps = params(self.body)
        self.role = {}
        for i, p in enumerate(self.ps):
            self.role.setdefault(classify_param(self.body, i, roles), []).append(i)
        self.D = raw("cparam", [g[0] for g in self.body["generics"] if g[1] == "const"][0])
        need = ["tree", "coords", "node", "queue"]
        self.missing = [r for r in need if r not in self.role]
        self.kmode = "container" in self.role
        if not self.kmode and not ("best" in self.role and "nb" in self.role):
            self.missing.append("best/neighbour")
        if self.missing:
            return
        g = lambda r: self.ps[self.role[r][0]]
        self.selfp, self.q, self.node, self.queue = g("tree"), g("coords"), g("node"), g("queue")
        self.axis = g("int") if self.kmode and "int" in self.role else None
        if self.kmode:
            self.cont = g("container")
            ct = ptype(self.body, self.role["container"][0])
            adt = self.body["types"][ct["to"]]["path"]
            self.cs = ContainerShape(self.prog, adt)
        else:
            self.best, self.nb = g("best"), g("nb")
        self.qv = deref(self.q)
        self.claimed = {}
        self.carry = None
        self.used_bounds = set()
        self.memo = {}

    # ---- values
    def bestval(self, env):
        if self.kmode:
            return self.cs.best(readenv(env, *place_of(self.cont)))
        return readenv(env, *place_of(self.best))

    def dist(self, P):
        arr = deref(fld(deref(P), None, self.R.p_ptr))
        b = bv()
        d = sub(idx(self.qv, b), idx(arr, b))
        return bind("sum", b, ZERO, self.D, mul(d, d))

    def axdist(self, P, ax):
        arr = deref(fld(deref(P), None, self.R.p_ptr))
        b = bv()
        d = sub(idx(self.qv, b), idx(arr, b))
        e = eq(b, self.axis)
        return bind("sum", b, ZERO, self.D, ite(e, mul(d, d), F(0.0)) if ax else ite(e, F(0.0), mul(d, d)))

    def boxdist(self, nv, variant):
        lo = fld(nv, variant, self.R.s_lo if variant == self.R.stem else self.R.l_lo)
        hi = fld(nv, variant, self.R.s_hi if variant == self.R.stem else self.R.l_hi)
        b = bv()
        d = sub(idx(self.qv, b), max_(min_(idx(self.qv, b), idx(hi, b)), idx(lo, b)))
        fa = lambda v: [(alg.lin2(idx(lo, v), idx(hi, v)), "<=")]
        return bind("sum", b, ZERO, self.D, mul(d, d)), fa

    def variant(self, facts, nv):
        for c, v in facts:
            if c.op == "is" and c.a[0] is nv:
                k = c.a[1]
                if v:
                    return k
                return self.R.leaf if k == self.R.stem else self.R.stem
        return None

    # ---- comparisons
    def cmp_best(self, ev):
        """(other side, 'ge' when best <= other is known / 'lt' when other < best / 'le' / 'gt') for a guard comparing with the best"""
        c, v = ev.a
        if c.op == "not":
            c, v = c.a[0], not v
        if c.op not in ("lt", "le", "eq"):
            return None
        a, b = c.a
        cur = self.bestval(ev.env)
        if c.op == "eq":
            o = b if a is cur else a if b is cur else None
            return (o, "ge") if v and o is not None and num(o) == 0 else None
        if c.op == "le":
            # a <= b
            if b is cur:
                return (a, "le" if v else "gt")
            if a is cur:
                return (b, "ge" if v else "lt")
            return None
        if b is cur:
            return (a, "lt" if v else "ge")
        if a is cur:
            return (b, "gt" if v else "le")
        return None

    def nothing_closer(self, ev):
        c = self.cmp_best(ev) if ev.k == "guard" else None
        return c is not None and c[1] == "ge" and num(c[0]) is not None and num(c[0]) <= 0

    # ---- the proof
    def facts_of(self, seqs):
        r = []
        for s in seqs:
            r += guards(s)
        return r

    def p_eval(self, P, ctx):
        """ctx: list of (events, path) from outermost to innermost"""
        seq, path = ctx[-1]
        want = self.dist(P)
        hits = []
        for n, e in enumerate(seq):
            if e.k != "guard":
                continue
            c = self.cmp_best(e)
            if c is None:
                # the distance compared with something else?
                cc = e.a[0]
                if cc.op in ("lt", "le") and any(x is want for x in cc.a):
                    o = cc.a[0] if cc.a[1] is want else cc.a[1]
                    hits.append((UNK if imprecise(o) else BAD, "the distance to a candidate is compared with %s, not with the current best" % show(o, 5), e))
                continue
            x, rel = c
            if x is not want and alg.same(x, want) is not True:
                continue
            if rel in ("ge", "gt"):
                if rel == "ge" and self.kmode and self.strict:
                    hits.append((BAD, "a candidate at the distance of the current k-th best is dropped although the container may not be full", e))
                else:
                    hits.append((OK_, "", e))
                continue
            st, why, ev = self.updated(seq, n, path, P, x, ctx)
            if st == OK_:
                self.claim(ev, ("eval", P))
            hits.append((st, why, ev[0] if ev else e))
        oks = [h for h in hits if h[0] == OK_]
        if oks:
            return OK_, "", oks[0][2]
        if hits:
            return hits[0]
        return None

    def updated(self, seq, n, path, P, S, ctx):
        if not self.kmode:
            wb = wn = None
            bc, bp = place_of(self.best)
            nc, np_ = place_of(self.nb)
            other = None
            for e in seq[n + 1:]:
                if e.k in ("guard", "loop", "reccall") and wb is not None and wn is not None:
                    break
                if e.k == "guard" and self.cmp_best(e) is not None:
                    break
                if e.k in ("loop", "reccall"):
                    if self.quiet(e):
                        continue
                    break
                if e.k == "w":
                    if e.a[0] is bc and tuple(e.a[1]) == tuple(bp):
                        if e.a[2] is S or alg.same(e.a[2], S) is True:
                            wb = e
                        else:
                            other = ("the best distance is set to %s instead of the candidate's distance" % show(e.a[2], 5), e)
                    if e.a[0] is nc and tuple(e.a[1]) == tuple(np_):
                        if e.a[2] is P:
                            wn = e
                        else:
                            other = ("the best neighbour is set to %s instead of the candidate" % show(e.a[2], 5), e)
            if other:
                return (UNK if imprecise(other[1].a[2]) else BAD), other[0], [other[1]]
            if wb is None and wn is None:
                return BAD, "a closer candidate does not become the best", None
            if wb is None:
                return BAD, "the best neighbour is replaced but not the best distance", [wn]
            if wn is None:
                return BAD, "the best distance is replaced but not the best neighbour", [wb]
            return OK_, "", [wb, wn]
        # container
        facts = self.facts_of([s for s, _ in ctx[:-1]])
        for m, e in enumerate(seq):
            if e.k == "guard" and m <= n:
                facts.append((e.a[0], e.a[1]))
                continue
            if m <= n:
                continue
            if e.k == "guard":
                if self.cmp_best(e) is not None:
                    break
                facts.append((e.a[0], e.a[1]))
                continue
            if e.k in ("loop", "reccall"):
                if self.quiet(e):
                    continue
                break
            r = self.cs.insertion(e, self.cont)
            if r is None:
                continue
            kind, cand = r
            cs = self.cs
            S2, P2 = cs.cand_dist(cand), cs.cand_point(cand)
            imp = imprecise(S2, P2)
            if P2 is not P:
                return (UNK if imp else BAD), "the inserted neighbour is %s, not the candidate" % show(P2, 5), [e]
            if not (S2 is S or alg.same(S2, S) is True):
                return (UNK if imp else BAD), "the inserted distance is %s, not the candidate's distance" % show(S2, 5), [e]
            if cs.axis:
                ax, non = cs.cand_axis(cand)
                for nm, got, exp in (("axis", ax, self.axdist(P, True)), ("non-axis", non, self.axdist(P, False))):
                    r = alg.same(got, exp)
                    if r is not True:
                        return (UNK if r is None or imprecise(got) else BAD), "the inserted %s component is not the %s part of the squared distance" % (nm, nm), [e]
                    if alg.cancels(got):
                        return BAD, "the inserted %s component is the difference of two sums of squares: what it amounts to may be lost to rounding" % nm, [e]
            H = cs.heap(readenv(e.env, *place_of(self.cont))) if kind == "push" else None
            K = cs.cap(readenv(e.env, *place_of(self.cont)))
            if kind == "push":
                if not alg.implies(facts, lt(len_(H), K)):
                    return BAD, "a candidate is added to the container although it may already hold k", [e]
            else:
                H = self.prev_heap(seq, m, e)
                if not alg.implies(facts, le(K, len_(H))):
                    return BAD, "the furthest candidate is replaced although the container may hold fewer than k", [e]
            return OK_, "", [e]
        return BAD, "a closer candidate is not put into the container", None

    def prev_heap(self, seq, m, e):
        v = self.cs.heap(readenv(e.env, *place_of(self.cont)))
        return v.a[0] if v.op in ("hreplace", "hpopped") else v

    def quiet(self, e):
        """a loop event that does not touch the result or recurse"""
        if e.k != "loop":
            return False
        for x in allevents([e]):
            if x.k in ("reccall", "opaque", "push", "pop", "hpush", "hpop"):
                return False
            if x.k == "w":
                return False
        return True

    def claim(self, evs, what):
        for e in evs or ():
            self.claimed.setdefault(id(e), (e, set()))[1].add(what)

    def bound_ok(self, x, nv, facts):
        """Is x a valid lower bound of the distance to the box of nv?"""
        if num(x) == 0:
            return not self.discover
        v = self.variant(facts, nv)
        if v is None:
            # either form
            res = None
            for k in (self.R.stem, self.R.leaf):
                b, fa = self.boxdist(nv, k)
                if x is b or alg.same(x, b, fa=fa) is True:
                    return True
            return False
        b, fa = self.boxdist(nv, v)
        if x is b:
            return True
        return alg.same(x, b, fa=fa)

    def skip(self, goal, ctx):
        """goal is excluded by bound >= best"""
        facts = self.facts_of([s for s, _ in ctx])
        seq = ctx[-1][0]
        for e in seq:
            if e.k != "guard":
                continue
            c = self.cmp_best(e)
            if c is None or c[1] not in ("ge", "gt"):
                continue
            if c[1] == "ge" and self.kmode and self.strict:
                # may drop what would still have to fill the container (distances may be infinite)
                weak = True
            else:
                weak = False
            x = c[0]
            if not self.discover and num(x) is not None and num(x) <= 0 and goal[0] in ("cover", "eval"):
                return OK_, "", e           # nothing is closer than at no distance
            if goal[0] == "cover" and self.bound_ok(x, goal[1], facts):
                return (BAD, "a subtree at exactly the k-th best distance is skipped (overflowing distances leave the container short)", e) if weak else (OK_, "", e)
            if goal[0] == "eval":
                for par, ch in self.parents(goal[1]):
                    if self.bound_ok(x, ch, facts):
                        return (BAD, "a subtree at exactly the k-th best distance is skipped (overflowing distances leave the container short)", e) if weak else (OK_, "", e)
            if self.entry is not None and x.op == "fld" and x.a[0] is self.entry:
                self.used_bounds.add(x.a[2])
                return (BAD, "an entry at exactly the k-th best distance is skipped (overflowing distances leave the container short)", e) if weak else (OK_, "skip", e)
        return None

    entry = None
    rest = False
    strict = True
    discover = False

    def parents(self, P):
        """(parent node value, child node value) pairs for a stem's point pointer P"""
        res = []
        pv = deref(P)
        if pv.op == "fld" and pv.a[1] == self.R.stem and pv.a[2] == self.R.s_point:
            par = pv.a[0]
            for c in (self.R.s_left, self.R.s_right):
                res.append((par, self.R.nodeat(self.selfp, fld(par, self.R.stem, c))))
        return res

    def p_cover(self, nv, ctx, extra):
        seq, path = ctx[-1]
        hits = []
        n = 0
        for x in extra:
            if x is nv:
                return OK_, "", None
        for e in seq:
            if e.k == "reccall" and e.a[0] == self.key:
                r = self.rec_ok(e, nv)
                if r is not None:
                    if r[0] == OK_:
                        self.claim([e], ("cover", nv))
                    hits.append(r)
            elif e.k == "push" and self.is_queue(e.a[0]):
                r = self.carried(("cover", nv), e, ctx)
                if r is not None:
                    if r[0] == OK_:
                        self.claim([e], ("cover", nv))
                    hits.append(r)
            elif e.k == "loop":
                r = self.descent(nv, e, ctx)
                if r is not None:
                    hits.append(r)
        oks = [h for h in hits if h[0] == OK_]
        if len(oks) > 1 and self.kmode:
            return BAD, "a subtree is searched twice (its points would be reported twice)", oks[1][2]
        if oks:
            return oks[0]
        s = self.skip(("cover", nv), ctx)
        if s is not None:
            return s
        # expand
        facts = self.facts_of([s for s, _ in ctx])
        v = self.variant(facts, nv)
        if v == self.R.stem:
            R = self.R
            P = self.pointer_to_stem_point(nv)
            for g in [("eval", P), ("cover", R.nodeat(self.selfp, R.child(nv, R.s_left))), ("cover", R.nodeat(self.selfp, R.child(nv, R.s_right)))]:
                r = self.prove(g, ctx, extra)
                if r[0] != OK_:
                    return r
            return OK_, "", None
        if v == self.R.leaf:
            return self.p_leaf(nv, ctx)
        if hits:
            return hits[0]
        return BAD, "the subtree at %s is neither searched, queued nor excluded" % show(nv, 6), None

    def pointer_to_stem_point(self, nv):
        # canonical pointer &nv.point
        return self.ptr_field(nv, self.R.stem, self.R.s_point)

    def ptr_field(self, nv, var, i):
        c, pr = self.place_of_node(nv)
        return mkref(c, list(pr) + [pf(var, i)])

    def place_of_node(self, nv):
        if nv.op == "deref":
            return Dcell(nv.a[0]), []
        # fld/idx chain down to deref(self)
        pr = []
        v = nv
        while v.op in ("fld", "idx"):
            if v.op == "fld":
                pr.append(pf(v.a[1], v.a[2]))
                v = v.a[0]
            else:
                pr.append(pi(v.a[1]))
                v = v.a[0]
        pr.reverse()
        if v.op == "deref":
            return Dcell(v.a[0]), pr
        raise Imprecise("node place %s" % show(nv, 4))

    def inner(self, ctx, e, bp):
        """the context of one iteration of the loop e, reached in ctx"""
        seq, path = ctx[-1]
        k = [n for n, x in enumerate(seq) if x is e][0]
        return ctx[:-1] + [(seq[:k], path), (bp.events, bp)]

    def p_leaf(self, nv, ctx):
        seq, path = ctx[-1]
        R = self.R
        pts = fld(nv, R.leaf, R.l_points)
        n = len_(pts)
        base = self.ptr_field(nv, R.leaf, R.l_points)
        hits = []
        for e in seq:
            if e.k != "loop":
                continue
            rec, xi = e.a
            g = rec.guard
            # which iv?
            if g is None or g["iv"] is None:
                continue
            touches = any(pts in set(walk(x.a[0])) for x in [y for p in rec.backs for y in p.events] if x.k == "guard") or g["hi"] is n
            if not touches:
                continue
            if g["hi"] is not n or g["lo"] is not ZERO:
                hits.append((UNK if imprecise(g["hi"], g["lo"]) else BAD, "only points %s..%s of a leaf are examined" % (show(g["lo"], 4), show(g["hi"], 4)), e))
                continue
            if not getattr(rec.exits[xi], "normal", False) and not any(self.nothing_closer(x) for x in rec.exits[xi].events):
                hits.append((BAD, "the scan of a leaf can stop before its last point", e))
                continue
            bad = None
            for bp in rec.backs:
                i = g["iv"].sym if g["iv"].step == 1 else add(g["iv"].sym, I(-1))
                P = mkref(place_of(base)[0], list(place_of(base)[1]) + [pi(i)])
                r = self.prove(("eval", P), self.inner(ctx, e, bp), ())
                if r[0] != OK_:
                    bad = r
                    break
            hits.append(bad or (OK_, "", e))
        oks = [h for h in hits if h[0] == OK_]
        if len(oks) > 1 and self.kmode:
            return BAD, "the points of a leaf are examined twice", oks[1][2]
        if oks:
            return oks[0]
        s = self.skip(("cover", nv), ctx)
        if s is not None:
            return s
        if alg.implies(self.facts_of([x for x, _ in ctx]), le(n, ZERO)):
            return OK_, "", None
        if hits:
            return hits[0]
        return BAD, "the points of the leaf %s are not all examined" % show(nv, 6), None

    def descent(self, nv, e, ctx):
        """a loop whose node variable starts at nv"""
        rec, xi = e.a
        cands = []
        for p in rec.phis:
            if p.val is not p.sym:
                continue
            for form in (lambda x: deref(x), lambda x: self.R.nodeat(self.selfp, x), lambda x: self.R.nodeat(self.selfp, deref(x))):
                try:
                    v0 = form(p.init)
                except Exception:
                    continue
                if v0 is nv:
                    cands.append((p, form))
        res = None
        for p, form in cands:
            cur = form(p.sym)
            bad = None
            for bi, bp in enumerate(rec.backs):
                nx = form(p.nexts[bi])
                if nx is cur:
                    continue
                r = self.prove(("cover", cur), self.inner(ctx, e, bp), (nx,))
                if r[0] != OK_:
                    bad = r
                    break
            if bad:
                res = bad
                continue
            # after the loop the node variable must still be covered, by what follows in this path
            seq, path = ctx[-1]
            k = [n for n, x in enumerate(seq) if x is e][0]
            r = self.prove(("cover", cur), ctx[:-1] + [(seq[k + 1:], path)], ())
            if r[0] == OK_:
                return OK_, "", e
            res = r
        return res

    # ---- queue
    def is_queue(self, ref):
        return ref is self.queue or (ref.op == "ref" and place_of(ref)[0] is place_of(self.queue)[0])

    def rec_ok(self, e, nv):
        args, pre = e.a[1], e.a[4]
        if pre[self.role["node"][0]] is not nv:
            return None
        for r, exp in (("tree", deref(self.selfp)), ("coords", self.qv)):
            if pre[self.role[r][0]] is not exp:
                return BAD, "the recursive search uses another %s" % ("query point" if r == "coords" else "tree"), e
        names = ["container"] if self.kmode else ["best", "nb"]
        for r in names + ["queue"]:
            i = self.role[r][0]
            if place_of(args[i]) != place_of(self.ps[i]):
                return UNK, "the recursive search works on another %s" % r, e
        if self.axis is not None and args[self.role["int"][0]] is not self.axis:
            return BAD, "the recursive search uses another axis", e
        return OK_, "", e

    def atoms(self, ent, a):
        kind, form, i = a
        x = fld(ent, None, i) if i is not None else ent
        if kind == "eval":
            return ("eval", x)
        if form == "idx*":
            return ("cover", self.R.nodeat(self.selfp, deref(x)))
        if form == "idx":
            return ("cover", self.R.nodeat(self.selfp, x))
        return ("cover", deref(x))

    def carried(self, goal, e, ctx):
        if self.carry is None:
            return None
        ent = e.a[1]
        for a in self.carry:
            try:
                g = self.atoms(ent, a)
            except Exception:
                continue
            if g[0] != goal[0]:
                continue
            if g[1] is goal[1] or (goal[0] == "eval" and self.same_point(g[1], goal[1])):
                facts = self.facts_of([s for s, _ in ctx])
                for b in self.entry_bounds:
                    x = fld(ent, None, b)
                    nvs = [goal[1]] if goal[0] == "cover" else [ch for _, ch in self.parents(goal[1])]
                    rs = [self.bound_ok(x, nv, facts) for nv in nvs]
                    if any(r is True for r in rs):
                        continue
                    if imprecise(x) or any(r is None for r in rs):
                        return UNK, "queue bound not understood", e
                    return BAD, "the queued bound is not the distance to the box of the queued subtree: %s" % show(x, 7), e
                return OK_, "", e
        return None

    def same_point(self, a, b):
        return deref(a) is deref(b)

    def prove(self, goal, ctx, extra=()):
        if goal[0] == "cover":
            return self.p_cover(goal[1], ctx, extra)
        P = goal[1]
        hits = []
        r = self.p_eval(P, ctx)
        if r is not None:
            hits.append(r)
        seq = ctx[-1][0]
        for e in seq:
            if e.k == "push" and self.is_queue(e.a[0]):
                c = self.carried(goal, e, ctx)
                if c is not None:
                    if c[0] == OK_:
                        self.claim([e], goal)
                    hits.append(c)
        oks = [h for h in hits if h[0] == OK_]
        if len(oks) > 1 and self.kmode:
            return BAD, "a point is examined twice (it would be reported twice)", oks[1][2]
        if oks:
            return oks[0]
        s = self.skip(goal, ctx)
        if s is not None:
            return s
        if hits:
            return hits[0]
        return BAD, "the point %s is neither examined, queued nor excluded" % show(P, 6), None

    def find_drains(self, events, acc, outer):
        for n, e in enumerate(events):
            if e.k == "loop":
                rec = e.a[0]
                if any(x.k in ("pop", "hpop") and self.is_queue(x.a[0]) for p in rec.backs for x in p.events):
                    acc.append((e, outer + [(events[:n], None)]))
                for p in rec.backs:
                    self.find_drains(p.events, acc, outer + [(events[:n], None)])
        return acc

    def pops(self, seq):
        return [e for e in seq if e.k in ("pop", "hpop") and self.is_queue(e.a[0])]

    def run(self):
        obs, fn = self.obs, self.key
        site = self.body["span"]
        if self.missing:
            obs.add("search-shape", fn, site, UNK, "roles not recognised: %s" % self.missing)
            return
        live = [(s, v) for s, v in self.outs if not isinstance(v, Panic)]
        obs.note("search paths", len(live))
        # 1. what a queue entry stands for: discovered where it is consumed
        drains = []
        for s, v in live:
            self.find_drains(s.events(), drains, [])
        seen = set()
        pushes = False
        for s, v in live:
            for e in allevents(s.events()):
                if e.k == "push" and self.is_queue(e.a[0]):
                    pushes = True
        self.carry = []
        self.entry_bounds = set()
        ents = []
        for e, outer in drains:
            if id(e) in seen:
                continue
            seen.add(id(e))
            for bp in e.a[0].backs:
                for p in self.pops(bp.events):
                    ents.append((e, outer, bp, p))
        if pushes and not ents:
            anyop = any(e.k == "opaque" for s, v in live for e in allevents(s.events()))
            obs.add("search-drain", fn, site, UNK if anyop else BAD, "subtrees are queued but the queue is never emptied")
        cands = []
        self.discover = True
        for e, outer, bp, p in ents:
            x = p.a[1]
            for i in range(6):
                for kind, form in (("cover", "idx*"), ("cover", "idx"), ("cover", "ptr"), ("eval", "ptr")):
                    a = (kind, form, i)
                    if a in cands:
                        continue
                    self.entry = None
                    try:
                        g = self.atoms(x, a)
                        if not self.plausible(g, bp):
                            continue
                        r = self.prove(g, outer + [(bp.events, bp)], ())
                    except Imprecise:
                        continue
                    if r[0] == OK_:
                        cands.append(a)
        self.carry = cands
        self.discover = False
        for e, outer, bp, p in ents:
            for a in cands:
                x = p.a[1]
                self.entry = x
                g = self.atoms(x, a)
                r = self.prove(g, outer + [(bp.events, bp)], ())
                obs.add("search-consume", fn, r[2].sp if r[2] else p.sp, self.judge(r, bp.events), r[1] or "a queue entry is searched or excluded by its bound")
                self.entry = None
        self.entry_bounds = set(self.used_bounds)
        obs.note("queue consumption paths", len(ents))
        # 2. cover(node) and the queue is empty at every return
        goal = ("cover", deref(self.node))
        for s, v in live:
            evs = s.events()
            try:
                r = self.prove(goal, [(evs, None)], ())
            except Imprecise as x:
                r = (UNK, "imprecise: %s" % x, None)
            obs.add("search-cover", fn, r[2].sp if r[2] else site, self.judge(r, evs), r[1] or "every point below the node is examined or excluded")
            if pushes:
                r = self.drained(s, evs)
                obs.add("search-drain", fn, r[2].sp if r[2] else site, self.judge(r, evs), r[1] or "the queue is empty on return")
            for e, before in self.removals(evs, []):
                obs.add("search-drain", fn, e.sp, BAD, "entries of the queue are thrown away that stand for subtrees still to be searched")
        # 3. no other change of the result
        self.unclaimed(live)

    def plausible(self, g, bp):
        if g[0] == "cover":
            return any(e.k == "reccall" or e.k == "loop" or (e.k == "guard" and e.a[0].op == "is") for e in bp.events)
        return True

    def removals(self, evs, facts):
        """operations that throw away entries of a queue that is not known to be empty"""
        last = None
        facts = list(facts)
        for e in evs:
            if e.k == "guard":
                if self.nothing_closer(e):
                    return
                facts.append((e.a[0], e.a[1]))
            elif e.k == "loop":
                for p in e.a[0].backs + e.a[0].exits:
                    yield from self.removals(p.events, facts)
                last = "loop"
            elif e.k in ("clear", "truncate", "setlen") and self.is_queue(e.a[0]):
                v = e.a[-1]
                if last in ("popnone", "clear") or imprecise(v) or v.op in ("vnew", "sorted", "post") or \
                        (e.k != "clear" and (imprecise(e.a[1]) or e.a[1].op != "int")):
                    continue
                if last == "loop" or any(x.k in ("sort", "opaque") for x in evs) or alg.implies(facts, eq(len_(v), ZERO)):
                    continue
                yield e, facts
                last = e.k
            elif e.k in ("pop", "popnone", "push") and self.is_queue(e.a[0]):
                last = e.k
            elif e.k == "reccall":
                last = e.k

    def drained(self, s, evs):
        c, pr = place_of(self.queue)
        v = readenv(s.env, c, pr)
        last = None
        for n, e in enumerate(evs):
            if e.k in ("push", "pop", "hpop", "reccall") and (e.k == "reccall" or self.is_queue(e.a[0])):
                last = e
        if v.op == "vnew":
            return OK_, "", None
        if v.op == "post" and last is not None and last.k == "reccall":
            return OK_, "", last
        facts = guards(evs)
        if alg.implies(facts, eq(len_(v), ZERO)):
            return OK_, "", None
        if imprecise(v):
            return UNK, "queue contents not understood", None
        if any(self.nothing_closer(e) for e in allevents(evs)):
            self.rest = True        # harmless for this query; entry.py asks whether another one starts with this queue
            return OK_, "entries are left only once the best distance is zero", None
        return BAD, "the search can return with entries left in the queue", last

    def judge(self, r, evs):
        if r[0] == BAD and any(e.k == "opaque" for e in allevents(evs)):
            return UNK
        return r[0]

    def unclaimed(self, live):
        obs, fn = self.obs, self.key
        seen = set()
        n = 0
        for s, v in live:
            evs = list(allevents(s.events()))
            for i, e in enumerate(evs):
                if id(e) in seen:
                    continue
                if e.k == "hpop" and any(x.k == "hpush" and x.a[2].op == "hpopped" and x.a[2].a[0] is e.a[2] for x in evs[i + 1:]):
                    continue    # on this path the element makes room for another one: a replacement
                seen.add(id(e))
                if e.k == "reccall" and e.a[0] == self.key:
                    n += 1
                    if id(e) not in self.claimed and self.kmode:
                        obs.add("search-extra", fn, e.sp, BAD, "a subtree is searched again")
                elif e.k == "push" and self.is_queue(e.a[0]):
                    n += 1
                    if id(e) not in self.claimed and self.kmode:
                        obs.add("search-extra", fn, e.sp, BAD, "a queue entry stands for nothing that is still to be searched")
                elif self.kmode:
                    r = self.cs.insertion(e, self.cont)
                    if r:
                        n += 1
                        if id(e) not in self.claimed:
                            obs.add("search-extra", fn, e.sp, BAD, "the container is changed other than by a candidate that is due")
                    elif e.k in ("clear", "truncate", "hpop", "drainall") and place_of(e.a[0])[0] is place_of(self.cont)[0]:
                        obs.add("search-extra", fn, e.sp, BAD, "candidates are removed from the container")
                elif e.k == "w" and e.a[0] in (place_of(self.best)[0], place_of(self.nb)[0]):
                    n += 1
                    if id(e) not in self.claimed:
                        obs.add("search-extra", fn, e.sp, BAD, "the best is changed other than by a closer candidate")
        obs.note("result updates and queue operations", n)


class ContainerShape:
    def __init__(self, prog, adt):
        a = prog.adts[adt]
        self.adt = adt
        fs = a["variants"][0]["fields"]
        self.h = [i for i, f in enumerate(fs) if "BinaryHeap" in a["types"][f["ty"]]["s"]]
        self.kf = [i for i, f in enumerate(fs) if a["types"][f["ty"]]["s"] == "usize"]
        if not self.h or not self.kf:
            raise Imprecise("container shape")
        self.h, self.kf = self.h[0], self.kf[0]
        hs = a["types"][fs[self.h]["ty"]]["s"]
        import re
        m = re.search(r"BinaryHeap<([\w:]+)<", hs)
        cname = m.group(1).split("::")[-1]
        cadt = Roles.find(prog.adts, cname)
        self.cadt = cadt
        c = prog.adts[cadt]
        s = c["types"][c["variants"][0]["fields"][0]["ty"]]["s"]
        self.axis = s.startswith("((")

    def heap(self, cont):
        return fld(cont, None, self.h)

    def cap(self, cont):
        return fld(cont, None, self.kf)

    def cand_dist(self, c):
        x = fld(fld(c, None, 0), None, 0)
        return fld(x, None, 0) if self.axis else x

    def cand_axis(self, c):
        x = fld(fld(c, None, 0), None, 0)
        return fld(x, None, 1), fld(x, None, 2)

    def cand_point(self, c):
        return fld(fld(c, None, 0), None, 1)

    def best(self, cont):
        return self.cand_dist(htop(self.heap(cont)))

    def insertion(self, e, cont):
        """('push'|'replace', candidate) if the event inserts into the heap of the container"""
        c, pr = place_of(cont)
        if e.k == "hpush":
            c2, p2 = place_of(e.a[0])
            if c2 is c:
                return "replace" if e.a[2].op == "hpopped" else "push", e.a[1]
        if e.k == "w" and e.a[0] is c and e.a[1] and e.a[1][-1].op == "ptop":
            return "replace", e.a[2]
        return None
