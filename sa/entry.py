"""Entry points of the queries: which searches are run, with what start state, and how the
returned values are derived from their outcome."""
from core import *
from search import ContainerShape, leaves_entries
from valid import *


DBG = 0


from models import sortkey


class Fail(Exception):
    def __init__(self, msg, ev=None, status=BAD):
        self.msg, self.ev, self.status = msg, ev, status
        Exception.__init__(self, msg)


def search_functions(prog, R):
    """recursive functions over (tree, node, queue)"""
    res = {}
    sc = prog.sccs()
    for k, b in prog.bodies.items():
        if b.get("bbs") and b["kind"] in ("Fn", "AssocFn") and sc.get(k):
            roles = [classify_param(b, i, R) for i in range(b["argc"])]
            if "tree" in roles and "node" in roles and "queue" in roles and "coords" in roles:
                m = {}
                for i, r in enumerate(roles):
                    m.setdefault(r, i)
                if "container" in m or ("best" in m and "nb" in m):
                    res[k] = m
    return res


def unref(t):
    return t


class Entry:
    def __init__(self, obs, pkg, cfg, key, R):
        self.obs, self.pkg, self.cfg, self.key, self.R = obs, pkg, cfg, key, R
        self.prog = program(pkg, cfg)
        self.body = self.prog.bodies[key]
        self.site = self.body["span"]
        self.ps = params(self.body)
        self.searches = search_functions(self.prog, R)
        self.D = raw("cparam", [g[0] for g in self.body["generics"] if g[1] == "const"][0])
        self.role = {}
        ints = []
        for i, p in enumerate(self.ps):
            r = classify_param(self.body, i, R)
            if r == "int":
                ints.append(i)
            else:
                self.role.setdefault(r, i)
        names = self.body.get("names") or {}
        self.k = self.axis = None
        for i in ints:
            nm = self.ps[i].a[0] if self.ps[i].op == "sym" else ""
            if "ax" in str(nm) and self.axis is None and len(ints) > 1:
                self.axis = self.ps[i]
            elif self.k is None:
                self.k = self.ps[i]
            elif self.axis is None:
                self.axis = self.ps[i]
        self.par = "queries" in self.role
        if "tree" not in self.role or not ("queries" in self.role or "coords" in self.role):
            raise Imprecise("parameters of %s" % key)
        self.selfp = self.ps[self.role["tree"]]
        self.tree = deref(self.selfp)
        self.kmode = self.k is not None
        self.sqrt = "sqrt-dist2" in cfg
        self.noidx = "no-index" in cfg
        self.nopos = "no-position" in cfg
        n = len_(deref(fld(self.tree, None, R.input)))
        nd = len_(fld(self.tree, None, R.data))
        self.n = n
        root = fld(self.tree, None, R.root)
        self.inv = [(lt(ZERO, n), True), (eq(nd, n), True), (lt(ZERO, len_(fld(root, R.leaf, R.l_points))), True)]
        self.start = fld(self.tree, None, R.start)

    def lookup(self, t):
        """(loop event, loop, phi) when t is a loop variable or a part of one"""
        r = self.phi.get(t)
        if r is not None:
            return r
        pr = []
        x = t
        while x.op in ("fld", "idx") and x not in self.phi:
            pr.append(pf(x.a[1], x.a[2]) if x.op == "fld" else pi(x.a[1]))
            x = x.a[0]
        if not pr or x.op != "phi" or x not in self.phi:
            return None
        e, rec, p = self.phi[x]
        if any(y.op == "pi" and rec.id in y.a[0].ph for y in pr):
            return None
        pr.reverse()

        def proj(v):
            for y in pr:
                v = project(v, y)
            return v
        q = Phi(t, p.cell, p.path, proj(p.init))
        q.nexts = [proj(n) for n in p.nexts]
        r = (e, rec, q)
        self.phi[t] = r
        return r

    # ---- positions of the searches
    def index(self, evs, stack, outer=()):
        facts = list(outer)
        for e in evs:
            if e.k == "guard":
                facts.append(e.a)
            elif e.k == "reccall":
                self.pos[e.a[2]] = (e, stack)
            elif e.k == "loop":
                rec = e.a[0]
                self.before[id(rec)] = list(facts)
                for sy, c in (getattr(rec, "closed", None) or {}).items():
                    p = rec.phi_of(sy)
                    if p is not None and c is not sy and num(c) is None:
                        self.phi.setdefault(c, (e, rec, p))
                for p in rec.phis:
                    self.phi.setdefault(p.sym, (e, rec, p))
                    if p.val is not p.sym:
                        self.phi.setdefault(p.val, (e, rec, p))
                for bp in rec.backs:
                    self.index(bp.events, stack + [(e, rec, bp)], facts)

    def feasible(self, facts):
        return not alg.contradict(facts + self.inv)

    # ---- validation of the query
    def need_valid(self, q, depth, facts, evs, what):
        f = Finite(facts, q, depth, (self.D,), evs)
        for w in ("isnan", "isinf"):
            st = f.status(w)
            if st != OK_:
                raise Fail(what, None, st)

    def conj(self, t):
        if t.op == "and":
            return self.conj(t.a[0]) + self.conj(t.a[1])
        return [t]

    # ---- the searches
    def call(self, n, q=None):
        if n not in self.pos:
            raise Fail("an outcome of unknown origin", None, UNK)
        return self.pos[n]

    def check_call(self, e):
        m = self.searches[e.a[0]]
        pre = e.a[4]
        if pre[m["tree"]] is not self.tree:
            raise Fail("the search runs on another tree", e)
        if pre[m["node"]] is not fld(self.tree, None, self.R.root):
            raise Fail("the search does not start at the root", e, UNK if imprecise(pre[m["node"]]) else BAD)
        if not self.emptyq(pre[m["queue"]], set()):
            raise Fail("the search starts with a queue that need not be empty: %s" % show(pre[m["queue"]], 5), e,
                       UNK if imprecise(pre[m["queue"]]) or leaves_entries(self.pkg, self.cfg, e.a[0], self.R) else BAD)
        if "int" in m and self.axis is not None and e.a[1][m["int"]] is not self.axis:
            raise Fail("the search uses another axis", e)
        return pre[m["coords"]]

    def emptyq(self, t, seen):
        if t.op in ("vnew",):
            return True
        if t.op == "setlen":
            return t.a[1] is ZERO
        if t in self.assumed_empty:
            return True
        if t.op == "post" and t.a[0] in self.pos:
            e, _ = self.pos[t.a[0]]
            return e.a[0] in self.searches and t.a[1] == self.searches[e.a[0]]["queue"] and not leaves_entries(self.pkg, self.cfg, e.a[0], self.R)
        if self.lookup(t):
            if t in seen:
                return True
            e, rec, p = self.phi[t]
            return self.emptyq(p.init, seen | {t}) and all(self.emptyq(x, seen | {t}) for x in p.nexts)
        return False

    assumed_empty = ()

    # container chain ------------------------------------------------------------------
    def cont_images(self, cv, stop=None):
        """images whose candidates the container value cv accounts for"""
        if cv is stop:
            return []
        if cv.op == "post":
            e, st = self.call(cv.a[0])
            m = self.searches.get(e.a[0])
            if m is None or cv.a[1] != m.get("container"):
                raise Fail("the container comes out of %s" % short(e.a[0]), e, UNK)
            q = self.check_call(e)
            self.calls.add(cv.a[0])
            return self.cont_images(e.a[4][m["container"]], stop) + [("img", q, e)]
        if self.lookup(cv):
            e, rec, p = self.phi[cv]
            imgs = self.cont_images(p.init, stop)
            paths = []
            for bi, bp in enumerate(rec.backs):
                if not self.feasible(guards(bp.events) + self.before[id(rec)]):
                    continue
                paths.append((bp, self.cont_images(p.nexts[bi], p.sym)))
            return imgs + [("fam", e, rec, paths)]
        return self.seeded(cv)

    def seeded(self, cv):
        cs = self.cs
        H, K = cs.heap(cv), cs.cap(cv)
        if H.op in ("hpush", "hreplace"):
            c, base = H.a[1], H.a[0]
            if not self.emptyheap(base):
                raise Fail("the container holds candidates before the search: %s" % show(base, 5), None, UNK if imprecise(base) else BAD)
            d = cs.cand_dist(c)
            if not (d.op == "flt" and d.a[0] == "inf"):
                raise Fail("the container is seeded with the distance %s instead of infinity" % show(d, 5), None, UNK if imprecise(d) else BAD)
        elif self.emptyheap(H):
            raise Fail("the container is not seeded before the search (its best distance is undefined)", None, BAD)
        else:
            raise Fail("container contents %s" % show(H, 5), None, UNK)
        want = min_(self.k, self.n)
        if not self.eqk(K, want):
            raise Fail("the container holds up to %s instead of min(k, number of points)" % show(K, 6), None, UNK if imprecise(K) else BAD)
        self.seeds += 1
        return []

    def emptyheap(self, H):
        return H.op == "vnew" or H in self.assumed_empty

    def eqk(self, a, b):
        return a is b or alg.implies(self.facts + self.inv, eq(a, b))

    def capof(self, cv, seen=()):
        if cv in seen:
            return None
        if cv.op == "post":
            e, _ = self.call(cv.a[0])
            return self.capof(e.a[4][self.searches[e.a[0]]["container"]], seen)
        if self.lookup(cv):
            e, rec, p = self.phi[cv]
            return self.capof(p.init, seen + (cv,))
        return self.cs.cap(cv)

    # best pairs -----------------------------------------------------------------------
    def idxterm(self, P):
        return raw("ptrdiff", fld(deref(P), None, self.R.p_ptr), self.start)

    def posterm(self, P):
        return fld(deref(P), None, self.R.p_ptr)

    def pair(self, d, rest, facts, stop=None):
        """images accounted for by the pair (distance, (index, position))"""
        if stop is not None and d is stop[0]:
            for a, b in zip(rest, stop[1]):
                if a is not b:
                    raise Fail("the distance is kept but the index or position is not", None, UNK if imprecise(a) else BAD)
            return []
        if d.op == "post":
            e, st = self.call(d.a[0])
            m = self.searches.get(e.a[0])
            if m is None or d.a[1] != m.get("best"):
                raise Fail("the distance comes out of %s" % short(e.a[0]), e, UNK)
            q = self.check_call(e)
            self.calls.add(d.a[0])
            P = raw("post", d.a[0], m["nb"])
            want = [self.idxterm(P), self.posterm(P)]
            for a, b in zip(rest, want):
                if a is not b and not (a.op == "ref" and place_of(a) == place_of(b)):
                    raise Fail("the returned index or position %s is not that of the best neighbour" % show(a, 6), e, UNK if imprecise(a) else BAD)
            b0, p0 = e.a[4][m["best"]], e.a[4][m["nb"]]
            if b0.op == "flt" and b0.a[0] == "inf":
                imgs = []
            else:
                imgs = self.pair(b0, [self.idxterm(p0), self.posterm(p0)][:len(rest)], facts, stop)
            imgs = imgs + [("img", q, e)]
            return imgs
        if self.lookup(d):
            e, rec, p = self.phi[d]
            rp = []
            for r in rest:
                x = self.lookup(r)
                if x is None or x[1] is not rec:
                    raise Fail("the returned index or position does not follow the best distance", e, UNK if imprecise(r) else BAD)
                rp.append(x[2])
            imgs = self.pair(p.init, [x.init for x in rp], facts, stop)
            paths = []
            for bi, bp in enumerate(rec.backs):
                f2 = guards(bp.events)
                if not self.feasible(f2 + self.before[id(rec)]):
                    continue
                nd = p.nexts[bi]
                self.pair_paths = None
                self.pair(nd, [x.nexts[bi] for x in rp], f2, (p.sym, [x.sym for x in rp]))
                if nd is not p.sym and not alg.implies(f2, le(nd, p.sym)):
                    raise Fail("the best so far is replaced by a neighbour that need not be closer", e)
                got = []
                for x in bp.events:
                    if x.k == "reccall" and x.a[0] in self.searches:
                        m = self.searches[x.a[0]]
                        q = self.check_call(x)
                        pd = raw("post", x.a[2], m["best"])
                        self.calls.add(x.a[2])
                        if nd is pd or alg.implies(f2, le(nd, pd)):
                            got.append(("img", q, x))
                        else:
                            raise Fail("a closer neighbour found in an image is not taken over", x)
                paths.append((bp, got))
            return imgs + [("fam", e, rec, paths)]
        if d.op in ("min",):
            raise Fail("distance %s" % show(d, 5), None, UNK)
        raise Fail("the returned distance %s is not that of a search" % show(d, 6), None, UNK if imprecise(d) or d.op not in ("flt", "int", "sqrt", "mul", "add", "sub", "fld", "idx") else BAD)

    def isbest(self, x):
        """is x the distance of the best / k-th best found so far (an upper bound of the final one)?"""
        if self.kmode:
            if x.op == "fld":
                for h in walk(x):
                    if h.op == "htop":
                        H = h.a[0]
                        if H.op == "fld" and self.cs.cand_dist(h) is x:
                            cv = H.a[0]
                            return cv.op == "post" or bool(self.lookup(cv))
            return False
        return x.op == "post" and x.a[0] in self.pos and self.searches[self.pos[x.a[0]][0].a[0]].get("best") == x.a[1] or self.bestvar(x)

    def bestvar(self, x):
        """a loop variable that starts as the best so far"""
        r = self.lookup(x)
        if r is None:
            return False
        i = r[2].init
        return i.op == "flt" and i.a[0] == "inf" or i is not x and self.isbest(i)

    # periodic images ------------------------------------------------------------------
    def family(self, fam, q, L):
        _, e, rec, paths = fam
        g = rec.guard
        if g is None or g["iv"] is None:
            raise Fail("the loop over the images is not understood", e, UNK)
        qs = [im for bp, ims in paths for im in ims]
        if any(im[0] != "img" for im in qs):
            raise Fail("nested image loops", e, UNK)
        for bp, ims in paths:
            if len(ims) > 1:
                raise Fail("several searches per image", e, UNK)
        if not qs:
            raise Fail("the images are not searched", e)
        qt = qs[0][1]
        if any(im[1] is not qt for im in qs):
            raise Fail("images differ between paths", e, UNK)
        S = qt.a[0] if qt.op == "idx" else None
        skips = []
        if S is not None and S.op == "filtseq":
            if not (g["lo"] is ZERO and g["hi"] is len_(S)):
                raise Fail("only some of the collected images are searched", e, UNK if imprecise(g["hi"]) else BAD)
            if not rec.exits or not getattr(rec.exits[e.a[1]], "normal", False):
                raise Fail("the search of the images can stop early", e)
            if any(not ims for bp, ims in paths):
                raise Fail("a collected image is not searched", e, UNK)
            M, mlo, mhi, cond, elem = open_(S)
            skips.append([(cond, False)])
            base = []
        else:
            iv = g["iv"]
            M = None
            for t in walk(qt):
                if t.op == "div" and t.a[1].op == "pow" and num(t.a[1].a[0]) == 2 and has(t.a[0], lambda x: x is iv.sym):
                    M = t.a[0]
            if M is None:
                raise Fail("the images are not enumerated by subset masks", e, UNK)
            c = sub(M, iv.sym)
            if num(c) is None:
                raise Fail("the images are not enumerated by subset masks", e, UNK)
            if not getattr(rec.exits[e.a[1]], "normal", False):
                raise Fail("the search of the images can stop early", e)
            mlo, mhi = add(g["lo"], c), add(g["hi"], c)
            elem = qt
            for bp, ims in paths:
                if not ims:
                    skips.append(guards(bp.events))
        bound_lo = num(mlo)
        if bound_lo is None or mhi is not pow_(I(2), self.D):
            st = UNK if imprecise(mlo, mhi) else BAD
            raise Fail("the images searched are those of the masks %s..%s, not 1..2^D" % (show(mlo, 4), show(mhi, 5)), e, st)
        if bound_lo > 1:
            raise Fail("the images of the masks below %s are not searched" % show(mlo), e)
        if self.kmode and bound_lo < 1:
            zero_skipped = False
            for f in skips:
                if alg.contradict(f + [(eq(M, ZERO), True)]) is False and any(c.op == "eq" for c, v in f):
                    zero_skipped = True
            if not zero_skipped:
                raise Fail("the real query is searched a second time as an image", e)
        # components
        j = bv()
        qj, Lj = idx(q, j), idx(L, j)
        val = idx(elem, j)
        bit = eq(rem(div(M, pow_(I(2), j)), I(2)), ONE)
        val = self.pick(val, [(le(ZERO, j), True), (lt(j, self.D), True)])
        self.bits(val, bit, M, j, e)
        half = alg.opoly(sub(mul(I(2), qj), Lj))
        assume = [(alg.opoly(neg(qj)), "<="), (alg.opoly(sub(qj, Lj)), "<="), (alg.opoly(neg(Lj)), "<")]

        def f(cx):
            return alg.truth(bit, cx), cx.sign(half), alg.poly(val, cx)
        try:
            for cx, cons, (b, s, p) in alg.cases(f, assume):
                exps = [qj] if not b else [add(qj, Lj)] if s < 0 else [sub(qj, Lj)] if s > 0 else [add(qj, Lj), sub(qj, Lj)]
                if not any(alg.vanishes(alg.padd(p, alg.opoly(x), -1), assume + cons) for x in exps):
                    raise Fail("the image of the query along a wrapped axis is not the query shifted by the box towards the far side: %s" % show(val, 8), e, UNK if imprecise(val) else BAD)
        except alg.TooHard:
            raise Fail("image coordinates not understood", e, UNK)
        # skipped images
        b = bv()
        mb = eq(rem(div(M, pow_(I(2), b)), I(2)), ONE)
        qb, Lb = idx(q, b), idx(L, b)
        side = min_(qb, sub(Lb, qb))
        want = bind("sum", b, ZERO, self.D, ite(mb, mul(side, side), F(0.0)))
        fa = lambda v: [(alg.opoly(neg(idx(q, v))), "<="), (alg.opoly(sub(idx(q, v), idx(L, v))), "<=")]
        for facts in skips:
            if not self.skip_ok(facts, want, fa, M, e):
                raise Fail("an image is left out for another reason than its side being at least as far as the best", e, UNK if imprecise(*[c for c, v in facts]) else BAD)
        self.obs.note("image families")

    def skip_ok(self, facts, want, fa, M, e):
        if alg.implies(facts, eq(M, ZERO)):
            return True
        for c, v in facts:
            while c.op == "not":
                c, v = c.a[0], not v
            if c.op == "and" and not v:
                # a conjunction failing: each conjunct must be a valid reason
                return all(self.skip_ok([(x, False)], want, fa, M, e) for x in c.a)
            if c.op not in ("lt", "le"):
                continue
            a, b = c.a
            # known: best <= bound or best < bound
            lo, hi = (b, a) if not v else (a, b)
            if not self.isbest(lo):
                continue
            if num(hi) == 0:
                return True
            r = alg.same(hi, want, fa=fa)
            if r is True:
                return True
            if r is None or imprecise(hi):
                raise Fail("the distance to the image's side is not understood", e, UNK)
            raise Fail("an image is left out although its side may be closer than the best: the bound used is %s" % show(hi, 8), e, BAD)
        return False

    def bits(self, val, bit, M, j, e):
        for t in walk(val):
            if t.op == "eq" and t.a[0].op == "rem" and t is not bit:
                x = t.a[0].a[0]
                if x.op == "div" and x.a[0] is M and x.a[1].op == "pow":
                    E = x.a[1].a[1]
                    if E is sub(sub(self.D, ONE), j) or E is j:
                        raise Fail("axes enumerated in another order", e, UNK)
                    raise Fail("axis %s is wrapped according to bit %s of the mask" % (show(j), show(E, 5)), e)
                raise Fail("subset mask not understood", e, UNK)

    def pick(self, t, facts):
        while t.op == "ite":
            if alg.implies(facts, t.a[0]):
                t = t.a[1]
            elif alg.implies(facts, t.a[0], False):
                t = t.a[2]
            else:
                break
        return t

    # ---- one query
    def images_ok(self, imgs, q, periodic, L, facts):
        real = [im for im in imgs if im[0] == "img" and im[1] is q]
        other = [im for im in imgs if im[0] == "img" and im[1] is not q]
        fams = [im for im in imgs if im[0] == "fam"]
        if other:
            raise Fail("a search is run for %s, not for the query" % show(other[0][1], 6), other[0][2], UNK if imprecise(other[0][1]) else BAD)
        if not real:
            raise Fail("the query itself is not searched", None)
        if len(real) > 1 and self.kmode:
            raise Fail("the query is searched twice into the same container", real[1][2])
        # families that search nothing are loops the container merely passes through
        fams = [f for f in fams if any(ims for bp, ims in f[3])]
        if not periodic:
            if fams:
                raise Fail("images are searched although the tree is not periodic", fams[0][1])
            return
        if not fams:
            return self.none_needed(facts, q, L)
        if len(fams) > 1:
            raise Fail("several loops over images", fams[1][1], UNK)
        self.family(fams[0], q, L)

    def none_needed(self, facts, q, L):
        """no image is searched on this path: the best is known to be nearer than any of them"""
        st = BAD
        for c, v in facts:
            while c.op == "not":
                c, v = c.a[0], not v
            if c.op not in ("lt", "le", "eq"):
                continue
            a, b = c.a if v or c.op == "eq" else (c.a[1], c.a[0])
            if c.op == "eq" and v and self.isbest(b):
                a, b = b, a
            if not self.isbest(a) or c.op == "eq" and not v:
                continue
            z = num(b)
            if z is not None and z <= 0:
                return          # nothing is closer than at no distance
            if z is None and (imprecise(b) or any(x is q or x is L or x in (deref(p) for p in self.ps) for x in walk(b))):
                st = UNK        # some bound made of the query and the box
        raise Fail("the periodic images are not searched", None, st)

    def run(self):
        obs, fn = self.obs, self.key
        self.eng, outs = summarise(self.pkg, self.cfg, self.key, strides=True)
        nok = 0
        self.seen_modes = set()
        for s, v in outs:
            if isinstance(v, Panic):
                continue
            evs = s.events()
            if not self.feasible(guards(evs)):
                continue
            if v.op != "agg":
                obs.add("entry", fn, self.site, UNK, "result %s" % show(v, 4))
                continue
            if isresult(v) and v.a[1] == 1:
                continue
            payload = v.a[2] if isresult(v) else v
            nok += 1
            try:
                self.path(evs, payload)
                obs.add("entry", fn, self.site, OK_, "the result is that of the prescribed searches")
            except Fail as x:
                st = x.status
                if st == BAD and any(e.k == "opaque" for e in allevents(evs)):
                    st = UNK
                obs.add("entry", fn, x.ev.sp if x.ev is not None else self.site, st, x.msg)
            except Imprecise as x:
                obs.add("entry", fn, self.site, UNK, "imprecise: %s" % x)
        obs.note("entry paths", nok)
        if not nok:
            obs.add("entry", fn, self.site, UNK, "no successful path")
        for need in ("real", "periodic"):
            if need not in self.seen_modes and nok:
                obs.add("entry", fn, self.site, UNK if any(o.status == UNK and o.fn == short(fn) for o in obs) else BAD, "no path handles %s trees" % ("periodic" if need == "periodic" else "non-periodic"))

    def shape(self, e):
        m = self.searches[e.a[0]]
        b = self.prog.bodies[e.a[0]]
        t = ptype(b, m["container"])
        return ContainerShape(self.prog, b["types"][t["to"]]["path"])

    def path(self, evs, payload):
        obs, fn = self.obs, self.key
        self.pos, self.phi, self.before = {}, {}, {}
        self.calls = set()
        self.seeds = 0
        self.assumed_empty = set()
        self.index(evs, [])
        self.facts = [g for g in guards(evs)]
        for n, (e, st) in self.pos.items():
            if e.a[0] in self.searches and self.kmode:
                self.cs = self.shape(e)
        if self.axis is not None and not alg.implies(self.facts, lt(self.axis, self.D)):
            raise Fail("an axis outside 0..D is accepted", None)
        qv = deref(self.ps[self.role["queries" if self.par else "coords"]])
        if self.kmode and alg.implies(self.facts, eq(self.k, ZERO)):
            comps = payload.a[2:]
            for c in comps:
                if len_(c) is not ZERO:
                    raise Fail("k = 0 does not give an empty result", None, UNK if imprecise(c) else BAD)
            self.need_valid(qv, 2 if self.par else 1, self.facts, evs, "k = 0: the query is not validated")
            return
        per = fld(self.tree, None, self.R.boxsize)
        L = fld(per, 1, 0)
        if not self.par:
            self.one(evs, qv, payload, self.facts, per, L)
            return
        # the loop over the queries
        loops = [e for e in evs if e.k == "loop" and e.a[0].guard and e.a[0].guard.get("hi") is len_(qv) and any(x.k == "reccall" for y in e.a[0].backs for x in allevents(y.events))]
        if not loops and self.blocks(evs, payload, qv, per, L):
            return
        if len(loops) != 1:
            raise Fail("the loop over the queries is not recognised (%d)" % len(loops), None, UNK)
        e = loops[0]
        rec = e.a[0]
        g = rec.guard
        if g["lo"] is not ZERO:
            raise Fail("the first queries are not processed", e, UNK if imprecise(g["lo"]) else BAD)
        if not getattr(rec.exits[e.a[1]], "normal", False):
            raise Fail("the processing of the queries can stop early", e)
        i = g["iv"].sym
        self.scratch(evs, e, rec)
        n = 0
        outs = payload.a[2:]
        for bi, bp in enumerate(rec.backs):
            facts = self.facts0(evs, e) + guards(bp.events)
            if not self.feasible(facts + self.scratch_facts):
                continue
            n += 1
            self.row(evs, e, rec, bi, bp, i, idx(qv, i), outs, facts, per, L)
        obs.note("row paths", n)
        if not n:
            raise Fail("no feasible iteration", e, UNK)
        for c in outs:
            self.buffer(c, rec, e, qv)
        bufs = {self.phi[c.a[0]][2].sym for c in outs}
        for p in rec.phis:
            if p.sym in bufs or p.sym in self.scratch_phis or p.val is not p.sym or p.sym is i or p.step is not None:
                continue
            for bi, bp in enumerate(rec.backs):
                if p.nexts[bi] is not p.sym and self.feasible(self.facts0(evs, e) + guards(bp.events) + self.scratch_facts):
                    if rec.par:
                        raise Fail("concurrent queries share mutable state: %s" % show(p.nexts[bi], 5), e, UNK if imprecise(p.nexts[bi]) else BAD)

    def blocks(self, evs, payload, qv, per, L):
        """The queries taken in blocks: a loop over the blocks, and one over the rows of each."""
        called = lambda x: x.k == "loop" and any(y.k == "reccall" and y.a[0] in self.searches for z in x.a[0].backs for y in allevents(z.events))
        loops = [e for e in evs if called(e) and e.a[0].guard]
        if len(loops) != 1:
            return False
        e = loops[0]
        rec = e.a[0]
        g = rec.guard
        n = 0
        outs = payload.a[2:]
        if any(c.op != "setlen" or c.a[0] not in self.phi or self.phi[c.a[0]][1] is not rec for c in outs):
            return False
        bufs = {c.a[0] for c in outs}
        fo = self.facts0(evs, e)
        todo = []
        for bi, bp in enumerate(rec.backs):
            inner = [x for x in bp.events if called(x)]
            f1 = fo + guards(bp.events)
            if not self.feasible(f1):
                continue
            if len(inner) != 1 or any(x.k == "reccall" and x.a[0] in self.searches for x in bp.events):
                return False
            x = inner[0]
            r2 = x.a[0]
            g2 = r2.guard
            if g2 is None or g2["iv"] is None or any(called(y) for z in r2.backs for y in z.events):
                return False
            pairs = []
            for c in outs:
                v = self.phi[c.a[0]][2].nexts[bi]
                q = next((q for q in r2.phis if q.sym is v), None)
                if q is None or q.init is not c.a[0]:
                    return False
                pairs.append((c, q))
            todo.append((bi, bp, x, r2, g2, pairs))
        if not todo:
            return False
        if not getattr(rec.exits[e.a[1]], "normal", False):
            raise Fail("the processing of the queries can stop early", e)
        for bi, bp, x, r2, g2, pairs in todo:
            j = g2["iv"].sym
            if not getattr(r2.exits[x.a[1]], "normal", False):
                raise Fail("the processing of a block of queries can stop early", x)
            own = {q.sym for q in r2.phis} | {q.sym for q in rec.phis}
            # the row an iteration works on
            at = None
            for z in allevents([y for b2 in r2.backs for y in b2.events]):
                if z.k == "reccall" and z.a[0] in self.searches:
                    m = self.searches[z.a[0]]
                    if "container" in m and any(t in own for t in walk(z.a[4][m["container"]])):
                        return False            # work areas carried from row to row
                    if at is None:
                        a = z.a[1][m["coords"]]
                        p = place_of(a)[1] if a is not None and a.op == "ref" else ()
                        if len(p) == 1 and p[0].op == "pi":
                            at = p[0].a[0]
            if at is None:
                return False
            mo = dict(rec.ivmap)
            b, jb = g["bv"], bv()
            row = subst(subst(at, mo), {j: jb})
            zero = subst(subst(row, {b: ZERO}), {jb: ZERO})
            size = sub(subst(subst(row, {b: ONE}), {jb: ZERO}), zero)
            if alg.same(row, add(add(mul(b, size), jb), zero)) is not True:
                return False
            lo2, hi2 = (add(subst(g2[w], mo), zero) for w in ("lo", "hi"))
            if any(t in own for y in (lo2, hi2, size) for t in walk(y)):
                return False
            cov = Finite([], qv, 2).blocks(qv, (b, g["lo"], g["hi"]), (jb, lo2, hi2), size)
            if not cov:
                raise Fail("the blocks do not cover the queries", e, UNK if cov is None else BAD)
            self.blockmap = mo
            f1 = fo + [f for f in guards(bp.events) if not any(t in {q.sym for q in r2.phis} for t in walk(f[0]))]
            try:
                for bj, b2 in enumerate(r2.backs):
                    facts = f1 + guards(b2.events)
                    if not self.feasible(facts):
                        continue
                    n += 1
                    saved = self.facts
                    self.facts = facts
                    try:
                        self.bufs = [(c, q.nexts[bj], q.sym) for c, q in pairs]
                        self.one(b2.events, idx(qv, at), None, facts, per, L, at)
                    finally:
                        self.facts = saved
                    queues = {t for z in allevents(b2.events) if z.k == "reccall" and z.a[0] in self.searches and "queue" in self.searches[z.a[0]]
                              for t in walk(z.a[4][self.searches[z.a[0]]["queue"]])}
                    for q in r2.phis:
                        if q.sym not in queues and q.sym not in {y[1].sym for y in pairs} and q.val is q.sym and q.step is None and q.sym is not j and q.nexts[bj] is not q.sym:
                            raise Fail("state carried from row to row: %s" % show(q.nexts[bj], 5), x, UNK)
            finally:
                self.blockmap = {}
        self.obs.note("row paths", n)
        if not n:
            raise Fail("no feasible iteration", e, UNK)
        for c in outs:
            self.buffer(c, rec, e, qv)
        return True

    blockmap = {}

    def facts0(self, evs, e):
        k = [n for n, x in enumerate(evs) if x is e][0]
        return guards(evs[:k])

    scratch_facts = ()

    def scratch(self, evs, e, rec):
        """per-thread work areas carried over between iterations: they are empty at the start of each"""
        self.scratch_facts = []
        self.scratch_phis = set()
        elems = {}
        for bp in rec.backs:
            for x in allevents(bp.events):
                if x.k == "reccall" and x.a[0] in self.searches:
                    m = self.searches[x.a[0]]
                    for r in ("container", "queue"):
                        if r in m:
                            for t in walk(x.a[4][m[r]]):
                                if t.op == "idx" and t.a[0].op == "phi" and t.a[0] in self.phi and self.phi[t.a[0]][1] is rec:
                                    elems.setdefault(t, x)
        done = set()
        for t, x in elems.items():
            p = self.phi[t.a[0]][2]
            i0 = t.a[1]
            # exclusive use
            if not (has(i0, lambda y: y.op in ("threadindex",)) and self.is_thread_index(i0)) and i0 is not rec.guard["iv"].sym:
                raise Fail("concurrent iterations share the work area %s" % show(i0, 5), x, UNK if imprecise(i0) else BAD)
            self.scratch_phis.add(p.sym)
            init = idx(p.init, i0)
            # which fields hold a container / a queue
            inv = []
            for f in range(4):
                fi = fld(init, None, f)
                ft = fld(t, None, f)
                if fi.op == "vnew":
                    inv.append(("queue", f, ft))
                elif fi.op == "agg" and self.kmode:
                    try:
                        H, K = self.cs.heap(fi), self.cs.cap(fi)
                    except Exception:
                        continue
                    if H.op == "vnew":
                        inv.append(("cont", f, ft, K))
            if not inv:
                raise Fail("work area %s not understood" % show(t, 4), x, UNK)
            for it in inv:
                if it[0] == "queue":
                    self.assumed_empty.add(it[2])
                    self.scratch_facts.append((eq(len_(it[2]), ZERO), True))
                else:
                    self.assumed_empty.add(self.cs.heap(it[2]))
                    self.scratch_facts += [(eq(len_(self.cs.heap(it[2])), ZERO), True), (eq(self.cs.cap(it[2]), it[3]), True)]
            self.inv_todo = getattr(self, "inv_todo", [])
            if (p, tuple(inv)) not in done:
                done.add((p, tuple(inv)))
                for bi, bp in enumerate(rec.backs):
                    if not self.feasible(self.facts0(evs, e) + guards(bp.events) + self.scratch_facts):
                        continue
                    self.scratch_vec(p.nexts[bi], p.sym, inv, x, frozenset(), 0)

    def scratch_vec(self, nx, base, inv, x, covered, depth):
        if nx is base:
            return
        if depth > 12:
            raise Fail("work areas not understood", x, UNK)
        if nx.op == "store":
            if nx.a[1] not in covered:
                self.scratch_elem(nx.a[2], inv, x)
            return self.scratch_vec(nx.a[0], base, inv, x, covered | {nx.a[1]}, depth + 1)
        if nx in self.phi:
            e, rec, p = self.phi[nx]
            self.scratch_vec(p.init, base, inv, x, covered, depth + 1)
            for n in p.nexts:
                self.scratch_vec(n, p.sym, inv, x, covered, depth + 1)
            return
        raise Fail("work areas not understood: %s" % show(nx, 5), x, UNK)

    def scratch_elem(self, el, inv, x):
        for it in inv:
            fe = fld(el, None, it[1])
            if it[0] == "queue":
                if not self.emptyq(fe, set()):
                    raise Fail("a queue is handed to the next query although it need not be empty", x, UNK if imprecise(fe) else BAD)
            else:
                H, K = self.cs.heap(fe), self.cs.cap(fe)
                if not self.emptyheap(H):
                    raise Fail("a container is handed to the next query with candidates left in it", x, UNK if imprecise(H) else BAD)
                b = self.basecap(K)
                if b is not self.cs.cap(it[2]) and not self.eqk(b, it[3]):
                    raise Fail("the capacity of a reused container changes", x, UNK if imprecise(K) else BAD)

    def is_thread_index(self, t):
        return t.op == "fld" and t.a[0].op == "threadindex" or t.op == "threadindex"

    def basecap(self, K):
        if K.op == "fld" and (K.a[0].op == "post" or self.lookup(K.a[0])):
            return self.capof(K.a[0])
        return K

    def row(self, evs, e, rec, bi, bp, i, q, outs, facts, per, L):
        saved = self.facts
        self.facts = facts + self.scratch_facts
        try:
            self.bufs = []
            for c in outs:
                if c.op != "setlen":
                    raise Fail("result buffer %s" % show(c, 4), e, UNK)
                x = self.phi.get(c.a[0])
                if x is None or x[1] is not rec:
                    raise Fail("a result buffer is not filled by the loop over the queries: %s" % show(c, 4), e, UNK if imprecise(c) else BAD)
                self.bufs.append((c, x[2].nexts[bi], x[2].sym))
            self.one(bp.events, q, None, self.facts, per, L, i)
        finally:
            self.facts = saved

    def buffer(self, c, rec, e, qv):
        """length of the returned buffer and its allocation"""
        p = self.phi[c.a[0]][2]
        want = mul(min_(self.k, self.n), len_(qv))
        if not self.eqprod(c.a[1], want):
            raise Fail("the result has %s entries instead of min(k, n) per query" % show(c.a[1], 6), e, UNK if imprecise(c.a[1]) else BAD)
        if p.init.op == "vnew":
            if not self.eqprod(p.init.a[0], c.a[1]):
                raise Fail("the buffer has capacity %s but length %s" % (show(p.init.a[0], 6), show(c.a[1], 6)), e, UNK if imprecise(p.init.a[0]) else BAD)
        elif not self.eqprod(len_(p.init), c.a[1]):
            raise Fail("the buffer is allocated as %s" % show(p.init, 5), e, UNK)

    def eqprod(self, a, b):
        if a is b:
            return True
        m = self.nsub()
        a, b = subst(a, m), subst(b, m)
        return a is b or alg.same(a, b) is True or alg.implies(self.facts + self.inv, eq(a, b))

    def nsub(self):
        """len(data) -> len(input); nested minima"""
        R = self.R
        nd = len_(fld(self.tree, None, R.data))
        m = {nd: self.n}
        k = min_(self.k, self.n)
        m[min_(self.n, k)] = k
        m[min_(self.k, k)] = k
        kd = min_(self.k, nd)
        m[kd] = k
        m[min_(nd, kd)] = k
        m[min_(self.n, kd)] = k
        m[min_(self.k, kd)] = k
        return m

    def one(self, evs, q, payload, facts, per, L, row=None):
        obs, fn = self.obs, self.key
        pre = []
        for x in evs:
            if x.k == "reccall" or (x.k == "loop" and any(y.k == "reccall" for z in x.a[0].backs for y in allevents(z.events))):
                break
            if x.k == "guard":
                pre.append(x.a)
        f1 = Finite(pre, q, 1, (self.D,), evs)
        qs = deref(self.ps[self.role["queries"]]) if self.par else None
        f2 = Finite(facts, qs, 2, (self.D,)) if self.par else None
        for w in ("isnan", "isinf"):
            if w in f1.got or f2 is not None and w in f2.got:
                continue
            raise Fail("a query with a NaN or infinite component is searched", None, UNK if f1.vague or f2 is not None and f2.vague else BAD)
        periodic = None
        for c, v in facts:
            if c.op == "is" and c.a[0] is per:
                periodic = v if c.a[1] == 1 else not v
        if periodic is None:
            raise Fail("the search does not depend on whether the tree is periodic", None)
        self.seen_modes.add("periodic" if periodic else "real")
        if not self.kmode:
            comps = payload.a[2:] if payload.op == "agg" else ()
            want = 2 if self.nopos else 3
            if len(comps) != want:
                raise Fail("the result has %d parts" % len(comps), None, UNK)
            d = self.unsqrt(comps[0])
            imgs = self.pair(d, comps[1:], facts)
            self.images_ok(imgs, q, periodic, L, facts)
            return
        # k nearest
        if payload is not None:
            cols = [("whole", c) for c in payload.a[2:]]
        else:
            cols = [("buf", c) for c in self.bufs]
        kinds = self.columns()
        if len(cols) != len(kinds):
            raise Fail("the result has %d parts instead of %d" % (len(cols), len(kinds)), None, UNK)
        cv = None
        for kind, c in cols:
            ts = [c] if kind == "whole" else [y for x in self.writes(c[1], c[2], evs) for y in x[:2]]
            for t in ts:
                for x in walk(t):
                    if x.op == "sorted":
                        H = x.a[0]
                        if H.op != "fld":
                            continue
                        if cv is not None and H.a[0] is not cv:
                            raise Fail("the parts of the result come from different containers", None, UNK)
                        cv = H.a[0]
        if cv is None:
            st = UNK
            for kind, c in cols:
                ts = [c] if kind == "whole" else [y for x in self.writes(c[1], c[2], evs) for y in x[:2]]
                ops = set(x.op for t in ts for x in walk(t))
                if "hvec" in ops and not ops & {"sortedby", "sorted"} and not any(imprecise(t) for t in ts):
                    st = BAD    # the heap's internal order, unsorted
                if not any(imprecise(t) for t in ts) and not ops & {"reversed", "sorted"}:
                    for x in (x for t in ts for x in walk(t) if x.op == "sortedby" and x.a[0].op == "hvec"):
                        k = sortkey(x.a[1])
                        if k is not None and has(k, lambda z: z.op in ("single", "toint", "floor", "round", "ceil", "trunc")):
                            raise Fail("the result is sorted by a rounded distance instead of the distances themselves (not a sorted container)", None, BAD)
            raise Fail("the result is not taken from a sorted container", None, st)
        imgs = self.cont_images(cv)
        self.images_ok(imgs, q, periodic, L, facts)
        if self.seeds != 1 and payload is not None:
            raise Fail("the container is seeded %d times" % self.seeds, None, UNK)
        cap = self.capof(cv)
        m = {}
        cs = self.cs
        m[len_(cs.heap(cv))] = cap
        m[cs.cap(cv)] = cap
        j = bv()
        el = idx(raw("sorted", cs.heap(cv)), j)
        P = cs.cand_point(el)
        exp = {}
        exp["dist"] = cs.cand_dist(el)
        exp["idx"] = self.idxterm(P)
        exp["pos"] = deref(self.posterm(P))
        if cs.axis:
            exp["ax"], exp["non"] = cs.cand_axis(el)
        what = {"dist": "distance", "idx": "index", "pos": "position", "ax": "axis distance", "non": "non-axis distance"}
        for (kind, c), kd in zip(cols, kinds):
            want = exp[kd]
            if kind == "whole":
                c = subst(c, m)
                if not self.eqk(len_(c), min_(self.k, self.n)):
                    raise Fail("the %s vector has %s entries instead of min(k, n)" % (what[kd], show(len_(c), 6)), None, UNK if imprecise(c) else BAD)
                got = self.pick(idx(c, j), [(le(ZERO, j), True), (lt(j, cap), True), (eq(cap, len_(c)), True)] + self.facts)
                self.cell(got, want, kd, what)
                continue
            ws = self.writes(c[1], c[2], evs)
            ok = False
            for ix, val, b, lo, hi, *more in ws:
                for h2 in more:
                    h2 = subst(subst(h2, m), self.nsub())
                    if not (self.eqk(h2, min_(self.k, self.n)) or self.eqk(h2, cap)):
                        raise Fail("only entries %s..%s of a row are written" % (show(lo, 4), show(h2, 5)), None, UNK if imprecise(h2) else BAD)
                ix, val = subst(ix, m), subst(val, m)
                ix, hi = subst(ix, self.nsub()), subst(subst(hi, m), self.nsub())
                k = min_(self.k, self.n)
                ix = self.capnorm(ix, cap, k)
                if b is None:
                    raise Fail("an entry of the %s column is written separately" % what[kd], None, UNK)
                want_ix = subst(add(mul(row, k), b), self.blockmap)
                ix = subst(ix, self.blockmap)
                if ix is not want_ix and alg.same(ix, want_ix) is not True:
                    raise Fail("the %ss of query i are written at %s, not in row i" % (what[kd], show(ix, 6)), None, UNK if imprecise(ix) else BAD)
                if not (lo is ZERO and (self.eqk(hi, k) or self.eqk(hi, cap))):
                    raise Fail("only entries %s..%s of a row are written" % (show(lo, 4), show(hi, 5)), None, UNK if imprecise(hi) else BAD)
                self.cell(subst(val, {b: j}), want, kd, what)
                ok = True
            if not ok:
                raise Fail("the %s column is not written" % what[kd], None, UNK if imprecise(c[1]) else BAD)

    def capnorm(self, ix, cap, k):
        if cap is None or cap is k:
            return ix
        if has(ix, lambda t: t is cap) and self.eqk(cap, k):
            return subst(ix, {cap: k})
        c2 = subst(cap, self.nsub())
        if has(ix, lambda t: t is c2) and (c2 is k or self.eqk(c2, k)):
            return subst(ix, {c2: k})
        return ix

    def columns(self):
        if self.axis is not None:
            return ["ax", "non"] + ([] if self.noidx else ["idx"]) + ([] if self.nopos else ["pos"])
        return ["dist", "idx"] + ([] if self.nopos else ["pos"])

    def unsqrt(self, d):
        if self.sqrt:
            if d.op != "sqrt":
                raise Fail("the returned distance is not the square root of the squared distance", None, UNK if imprecise(d) else BAD)
            d = d.a[0]
        if d.op == "sqrt":
            raise Fail("the square root of the distance is taken %s" % ("twice" if self.sqrt else "although the feature sqrt-dist2 is off"), None)
        return d

    def cell(self, got, want, kd, what):
        if kd in ("dist", "ax", "non"):
            got = self.unsqrt(got)
        if got is not want:
            raise Fail("the %s returned for a rank is %s, not that of the candidate with that rank" % (what[kd], show(got, 7)), None, UNK if imprecise(got) else BAD)

    def writes(self, nx, sym_, evs):
        """what the iteration writes to a buffer: (index, value, bound variable, lo, hi)"""
        res = []
        n = 0
        while nx is not sym_:
            n += 1
            if n > 50:
                raise Fail("buffer", None, UNK)
            if nx.op == "store":
                res.append((nx.a[1], nx.a[2], None, None, None))
                nx = nx.a[0]
                continue
            if nx in self.phi:
                e, rec, p = self.phi[nx]
                g = rec.guard
                if g is None or g["iv"] is None:
                    raise Fail("the loop filling a buffer is not understood", e, UNK)
                for bi, bp in enumerate(rec.backs):
                    y = p.nexts[bi]
                    k = 0
                    while y is not p.sym:
                        if y.op != "store" or k > 8:
                            raise Fail("the loop filling a buffer is not understood", e, UNK)
                        res.append((y.a[1], y.a[2], g["iv"].sym, g["lo"], g["hi"]))
                        y = y.a[0]
                        k += 1
                    if not k and len(rec.backs) > 1:
                        raise Fail("some entries are not written", e, UNK)
                x = rec.exits[e.a[1]]
                if not getattr(x, "normal", False):
                    # a second bound on the position (two sequences walked in step) limits the row like the first
                    gs = [y for y in x.events if y.k != "mark"]
                    lim = gs[-1].a[0] if gs and gs[-1].k == "guard" and gs[-1].a[1] is False else None
                    if lim is None or lim.op != "lt" or lim.a[0] is not g["iv"].sym or any(y.k != "guard" for y in gs) \
                            or any(y.a[0].op != "lt" or y.a[0].a[0] is not g["iv"].sym or not y.a[1] for y in gs[:-1]):
                        raise Fail("the filling of a row can stop early", e, UNK if any(imprecise(y.a[0]) for y in gs if y.k == "guard") else BAD)
                    res = [(r[:5] + (lim.a[1],)) if r[2] is g["iv"].sym else r for r in res]
                nx = p.init
                continue
            if nx.op == "arrlam":
                b, lo, hi, body, base = open_(nx)
                res.append((b, body, b, lo, hi))
                nx = base
                continue
            raise Fail("buffer contents %s" % show(nx, 4), None, UNK)
        return res


def entry_points(prog, R):
    """public query functions of Tree"""
    res = []
    for k, b in prog.bodies.items():
        if b["crate"] == "fnntw" and b["kind"] == "AssocFn" and b.get("pub") and b.get("bbs"):
            roles = [classify_param(b, i, R) for i in range(b["argc"])]
            if roles and roles[0] == "tree" and ("coords" in roles or "queries" in roles):
                res.append(k)
    return sorted(res)


def isresult(v):
    return str(v.a[0]).split("::")[-1] == "Result"
