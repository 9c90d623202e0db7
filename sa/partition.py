"""The partition contract: fn(&mut [Point], .., axis) -> (lower side, dividing point, upper side).

The array is abstracted into segments whose elements compare in a known way ('<', '=', '>') with the pivot's
component.  Loops are summarised by a fixpoint over segments that start or end at a loop variable and over
linear relations of the loop variables; the number of elements of each class, which the code counts first, bounds
the length of the segments and, once a class is used up, excludes it from the rest of the array."""
import itertools
from core import *
import alg
import fm
from alg import padd, pscale, pconst, patom, psubst
from build import is_partition, point_slice, axis_params, cmp_axis
from fractions import Fraction

LT, EQ, GT = 1, 2, 4
ALLC = 7
SPECIAL = ("min", "max", "div", "rem", "satsub", "ite", "len")
NAMES = {LT: "smaller", EQ: "equal", GT: "greater"}


class Unclear(Exception):
    """the analysis cannot follow the code"""


def names(m):
    return " or ".join(NAMES[c] for c in (LT, EQ, GT) if m & c) or "nothing"


def sub_(p, q):
    return padd(p, q, -1)


def plus(p, k):
    return padd(p, pconst(k))


class St:
    """state: linear facts, the array version and what is known of its elements"""

    def __init__(self, facts=(), base=None, segs=(), singles=()):
        self.facts = list(facts)
        self.base = base
        self.segs = list(segs)          # (lo, hi, mask)
        self.singles = list(singles)    # (index, mask)
        self._cnt = None

    def copy(self):
        return St(self.facts, self.base, self.segs, self.singles)


class Partition:
    RULE = "partition"

    def __init__(self, obs, pkg, cfg, key, roles):
        self.obs, self.pkg, self.cfg, self.key, self.R = obs, pkg, cfg, key, roles
        self.prog = program(pkg, cfg)
        self.body = self.prog.bodies[key]
        self.cache = {}
        self.vague = []
        self.recording = False
        self.bounds = {}

    def context(self, k):
        """caches that are valid for one pivot"""
        if not hasattr(self, "contexts"):
            self.contexts = {}
            self.ids, self.interned, self.alive, self.vcache = {}, {}, [], {}
        if k not in self.contexts:
            self.contexts[k] = ({}, {}, [], {})
        self.cache, self.cache1, self.points, self.memo = self.contexts[k]

    # -- linear arithmetic
    def P(self, t):
        return self.conv(alg.opoly(t))

    def conv(self, p):
        r = {}
        for m, c in p.items():
            q = {(): c}
            for t in m:
                q = alg.pmul(q, self.atom(t))
            r = padd(r, q)
        return r

    def atom(self, t):
        if t.op == "sum":
            x = self.count(t)
            if x is not None:
                return x
        if t.op == "len" and self.version(t.a[0]):
            return patom(self.N)
        if t.op in ("min", "max", "div", "rem", "satsub", "ite") and self.deep(t):
            return patom(self.canon_atom(t))
        return patom(t)

    def deep(self, t):
        return any(x.op in ("sum", "len") for x in walk(t))

    def canon_atom(self, t):
        """the same operation on arguments in which counts and lengths are replaced by their symbols"""
        m = {}
        for x in walk(t):
            if x.op == "sum":
                c = self.count(x)
                if c is not None:
                    m[x] = self.term(c)
            elif x.op == "len" and self.version(x.a[0]):
                m[x] = self.N
        return subst(t, m) if m else t

    def term(self, p):
        r = I(0)
        for m, c in p.items():
            if c.denominator != 1:
                raise Unclear("fraction")
            x = I(int(c))
            for t in m:
                x = mul(x, t)
            r = add(r, x)
        return r

    def version(self, t):
        """is t the slice at some moment (a rearrangement of its initial contents)?"""
        for _ in range(60):
            if t is self.slice0 or t in self.versions:
                return True
            if t.op in ("store", "selected", "sortedby", "reversed", "subupd"):
                t = t.a[0]
                continue
            return False
        return False

    def count(self, t):
        """a sum over the whole array of a function of the class -> polynomial in the class counts"""
        if t in self.counts:
            return self.counts[t]
        self.counts[t] = None
        o = open_(t)
        b, body = o[0], o[-1]
        lo, hi = (o[1], o[2]) if len(o) == 4 else (None, None)
        if lo is not ZERO or hi is None:
            return None
        if not (hi.op == "len" and self.version(hi.a[0]) or hi is self.N):
            return None
        if self.K is None:
            return None
        w = {}
        for c in (LT, EQ, GT):
            v = self.under(body, b, c)
            if v is None or v.op != "int":
                return None
            w[c] = v.a[0]
        # E, L symbols; G = N - L - E
        p = padd(padd(pscale(patom(self.Ls), w[LT]), pscale(patom(self.Es), w[EQ])),
                 pscale(sub_(sub_(patom(self.N), patom(self.Ls)), patom(self.Es)), w[GT]))
        self.counts[t] = p
        self.counted.add(t)
        return p

    def under(self, t, b, c):
        while t.op == "ite":
            m = self.keymask(t.a[0], lambda P: P.op == "idx" and P.a[1] is b and self.version(P.a[0]))
            if m is None:
                return None
            v = bool(m[1] & c)
            t = t.a[1] if v else t.a[2]
        return t

    def keyof(self, t):
        """component `axis` of a point -> the point's value term"""
        if t.op == "idx" and t.a[1] is self.axis and t.a[0].op == "deref" and t.a[0].a[0].op == "fld":
            return t.a[0].a[0].a[0]
        return None

    def keymask(self, c, isel=None):
        """comparison of an element's key with the pivot's -> (element point, classes for which it holds)"""
        neg = False
        while c.op == "not":
            c, neg = c.a[0], not neg
        if c.op in ("and", "or"):
            r = None
            for x in c.a:
                m = self.keymask(x, isel)
                if m is None or r is not None and m[0] is not r[0]:
                    return None
                r = m if r is None else (m[0], r[1] & m[1] if c.op == "and" else r[1] | m[1])
            return (r[0], ALLC & ~r[1] if neg else r[1])
        if c.op not in ("lt", "le", "eq"):
            return None
        x, y = c.a
        if x is self.K and self.keyof(y) is not None:
            P, m = self.keyof(y), {"lt": GT, "le": GT | EQ, "eq": EQ}[c.op]
        elif y is self.K and self.keyof(x) is not None:
            P, m = self.keyof(x), {"lt": LT, "le": LT | EQ, "eq": EQ}[c.op]
        else:
            return None
        if isel and not isel(P):
            return None
        return P, (ALLC & ~m if neg else m)

    def lin(self, c, v):
        """linear facts of a condition"""
        if c.op == "not":
            return self.lin(c.a[0], not v)
        if c.op == "and" and v or c.op == "or" and not v:
            return [f for x in c.a for f in self.lin(x, v)]
        if c.op not in ("lt", "le", "eq"):
            return []
        x, y = c.a
        if not (isint(x) or isint(y) or self.intlike(x) and self.intlike(y)):
            return []
        p = sub_(self.P(x), self.P(y))
        if c.op == "lt":
            return [(p, "<")] if v else [(pscale(p, -1), "<=")]
        if c.op == "le":
            return [(p, "<=")] if v else [(pscale(p, -1), "<")]
        if v:
            return [(p, "=")]
        if y is ZERO and nonneg(x):
            return [(pscale(p, -1), "<")]
        return []

    def intlike(self, t):
        return not has(t, lambda x: x.op == "deref")  or self.keyof(t) is None

    def infeasible(self, facts):
        k = self.fkey(facts)
        r = self.cache.get(k)
        if r is None:
            if time.process_time() - self.t0 > 150:
                raise Unclear("the analysis takes too long")
            r = self.cache[k] = any(self.infeasible1(c) for c in self.components(self.base0 + facts))
        return r

    def fkey(self, facts):
        ids = self.ids
        r = []
        for p, rel in facts:
            k = ids.get((id(p), rel))
            if k is None:
                q = (frozenset(p.items()), rel)
                k = self.interned.setdefault(q, len(self.interned))
                ids[(id(p), rel)] = k
                self.alive.append(p)
            r.append(k)
        return frozenset(r)

    def vars_of(self, p):
        k = id(p)
        r = self.vcache.get(k)
        if r is None:
            self.alive.append(p)
            r = set()
            sp = False
            for m in p:
                for t in m:
                    r.add(t)
                    if t.op in SPECIAL and t is not self.N:
                        sp = True
                        for x in walk(t):
                            if x.op in ("phi", "sym", "len", "param"):
                                r.add(x)
            r = self.vcache[k] = (frozenset(r), sp)
        return r

    def components(self, cons):
        comps = []      # [vars, cons]
        for f in cons:
            vs = self.vars_of(f[0])[0]
            hit = [c for c in comps if c[0] & vs]
            n = [set(vs), [f]]
            for c in hit:
                n[0] |= c[0]
                n[1] = c[1] + n[1]
                comps.remove(c)
            comps.append(n)
        return [c[1] for c in comps]

    def infeasible1(self, allc):
        k = self.fkey(allc)
        r = self.cache1.get(k)
        if r is not None:
            return r
        if not any(self.vars_of(p)[1] for p, _ in allc):
            # points known to satisfy many of the facts
            for n, w in enumerate(self.points):
                if fm.holds(allc, w, True):
                    if n:
                        self.points.insert(0, self.points.pop(n))
                    self.cache1[k] = False
                    return False
            w = fm.solve(allc, True)
            if w:
                pt = fm.point(w)
                if pt is not None:
                    self.points.insert(0, pt)
                    del self.points[16:]
            r = w is None
        else:
            r = alg.infeasible_split(allc, True)
        self.cache1[k] = r
        return r

    def prove(self, facts, p, rel):
        """facts imply p rel 0"""
        if alg.isconst(p):
            c = alg.cval(p)
            if (c < 0 or c == 0 and rel != "<") if rel != "=" else c == 0:
                return True
        if rel == "=":
            return self.prove(facts, p, "<=") and self.prove(facts, pscale(p, -1), "<=")
        n = (pscale(p, -1), "<=") if rel == "<" else (pscale(p, -1), "<")
        return self.infeasible(facts + [n])

    def le(self, facts, a, b):
        return self.prove(facts, sub_(a, b), "<=")

    def lt(self, facts, a, b):
        return self.prove(facts, sub_(a, b), "<")

    # -- classes of elements
    def counting(self, st):
        """(facts, exclusions) from the numbers of elements of the classes"""
        if st._cnt is not None:
            return st._cnt
        facts = list(st.facts)
        excl = []
        L, E, N = patom(self.Ls), patom(self.Es), patom(self.N)
        G = sub_(sub_(N, L), E)
        cn = {LT: L, EQ: E, GT: G, LT | EQ: padd(L, E), EQ | GT: padd(E, G), LT | GT: padd(L, G)}
        pieces = [(lo, hi, m) for lo, hi, m in st.segs if m and m != ALLC] + [(i, plus(i, 1), m) for i, m in st.singles if m and m != ALLC]
        for rnd in range(3):
            excl = []
            new = []
            for S in cn:
                chosen, tot = [], {}
                for lo, hi, m in pieces:
                    if m & ~S:
                        continue
                    if not self.le(facts, lo, hi):
                        continue
                    if all(self.le(facts, hi, l2) or self.le(facts, h2, lo) for l2, h2, _ in chosen):
                        chosen.append((lo, hi, m))
                        tot = padd(tot, sub_(hi, lo))
                if not chosen:
                    continue
                if not self.le(facts, tot, cn[S]):
                    new.append((sub_(tot, cn[S]), "<="))
                if self.le(facts, cn[S], tot):
                    excl.append((S, chosen))
            facts += new
            if not new:
                break
        st._cnt = (facts, excl)
        return st._cnt

    def cls(self, st, facts, j, depth=0):
        """classes an element of the base array at index j can have"""
        if self.infeasible(facts):
            return 0
        mask = ALLC
        und = []
        for i, m in st.singles:
            if self.prove(facts, sub_(i, j), "="):
                mask &= m
            elif mask & ~m:
                und += [i, plus(i, 1)]
        for lo, hi, m in st.segs:
            if not mask & ~m:
                continue
            if self.le(facts, lo, j) and self.lt(facts, j, hi):
                mask &= m
            else:
                und += [lo, hi]
        _, excl = self.counting(st)
        for S, ps in excl:
            if not mask & S:
                continue
            out = True
            for lo, hi, m in ps:
                if not (self.lt(facts, j, lo) or self.le(facts, hi, j)):
                    out = False
                    und += [lo, hi]
            if out:
                mask &= ~S
        if bin(mask).count("1") <= 1 or depth > 8:
            return mask
        for b in und:
            a1 = [(sub_(j, b), "<")]
            a2 = [(sub_(b, j), "<=")]
            if self.infeasible(facts + a1) or self.infeasible(facts + a2):
                continue
            return mask & (self.cls(st, facts + a1, j, depth + 1) | self.cls(st, facts + a2, j, depth + 1))
        return mask

    def elem(self, st, X, j, facts, depth=0):
        """classes of X[j]"""
        if self.infeasible(facts):
            return 0
        if X is st.base:
            return self.cls(st, facts, j)
        if X.op == "store" and depth < 12:
            i = self.P(X.a[1])
            r = 0
            at = facts + [(sub_(j, i), "=")]
            if not self.infeasible(at):
                r |= self.value(st, X.a[2], at, depth + 1)
            for q in ([(sub_(j, i), "<")], [(sub_(i, j), "<")]):
                r |= self.elem(st, X.a[0], j, facts + q, depth + 1)
                if r == ALLC:
                    break
            return r
        if X is not st.base:
            self.vague.append("array version %s" % show(X, 3))
        return ALLC

    def value(self, st, v, facts, depth):
        if v.op == "idx" and self.version(v.a[0]):
            return self.elem(st, v.a[0], self.P(v.a[1]), facts, depth)
        if v.op == "ite":
            return self.value(st, v.a[1], facts, depth) | self.value(st, v.a[2], facts, depth)
        if self.K.op == "idx" and v is self.keyof(self.K):
            return EQ
        self.vague.append("value %s" % show(v, 4))
        return ALLC

    # -- permutations
    def is_perm(self, X, base):
        """is X a rearrangement of base?  None: cannot tell"""
        if X is base:
            return True
        if X.op in ("selected", "sortedby", "reversed"):
            return self.is_perm(X.a[0], base)
        if X.op == "subupd":
            v = X.a[3]
            while v.op in ("selected", "sortedby", "reversed"):
                v = v.a[0]
            if v.op == "subseq" and v.a[0] is X.a[0] and v.a[1] is X.a[1] and v.a[2] is X.a[2]:
                return self.is_perm(X.a[0], base)
            return None
        if X.op == "ite":
            return self.is_perm(X.a[1], base) and self.is_perm(X.a[2], base)
        if X.op == "store":
            st = []
            t = X
            while t.op == "store":
                st.append((t.a[1], t.a[2]))
                t = t.a[0]
            below = self.is_perm(t, base)
            if not below:
                return below
            ix = [i for i, _ in st]
            vals = []
            for _, v in st:
                if v.op != "idx" or v.a[0] is not t:
                    return None
                vals.append(v.a[1])
            if len(set(ix)) == len(ix) and sorted(x.id for x in ix) == sorted(x.id for x in vals):
                return True if len(ix) <= 2 else None
            return False if len(set(ix)) == len(ix) and len(ix) <= 2 else None
        if X in self.versions and base is self.slice0:
            return True
        return None

    # -- paths
    def walk(self, st, events):
        """states at the end of the events"""
        sts = [st]
        for e in events:
            nxt = []
            for s in sts:
                nxt += self.step(s, e)
            sts = nxt
            if not sts:
                break
        return sts

    def step(self, s, e):
        if e.k == "guard":
            c, v = e.a
            km = self.keymask(c) if self.K is not None else None
            if km is not None:
                P, m = km
                m = m if v else ALLC & ~m
                if P.op == "idx" and P.a[0] is s.base:
                    s = s.copy()
                    j = self.P(P.a[1])
                    s.singles.append((j, m))
                    if self.cls(s, s.facts, j, 9) == 0:
                        return []
                elif P.op == "idx" and self.version(P.a[0]) and s.base is not None:
                    if not self.infeasible(s.facts) and self.elem(s, P.a[0], self.P(P.a[1]), s.facts) & m == 0:
                        return []
                return [s]
            f = self.lin(c, v)
            if f:
                s = s.copy()
                s.facts += f
                if self.infeasible(s.facts):
                    return []
            return [s]
        if e.k == "unsafe":
            if self.recording and e.a[0].startswith("pointer") and len(e.a) >= 5 and isinstance(e.a[3], T) and self.version(e.a[3]):
                self.bound(s, e)
            return [s]
        if e.k == "loop":
            return self.loop(s, *e.a)
        return [s]

    def bound(self, s, e):
        i = self.P(e.a[4])
        facts, _ = self.counting(s)
        ok = self.le(facts, {}, i) and self.lt(facts, i, patom(self.N))
        k = e.sp
        self.bounds[k] = self.bounds.get(k, True) and ok

    def loop(self, s, rec, xi):
        arr = [p for p in rec.phis if p.cell is self.cell and not p.path]
        if len(arr) > 1 or any(p.cell is self.cell and p.path for p in rec.phis):
            raise Unclear("parts of the array are loop variables")
        arr = arr[0] if arr else None
        for p in rec.phis:
            for t in [p.init] + list(p.nexts):
                if p is not arr and isinstance(t, T) and t.op == "store" and self.version(t):
                    raise Unclear("a copy of the array is changed")
        ints = [p for p in rec.phis if p is not arr and p.val is p.sym and self.isnum(p)]
        vecs = [p for p in rec.phis if p.init.op == "vnew"]
        if arr is not None:
            self.versions.add(arr.sym)
            for n in arr.nexts:
                r = self.permok(n, arr.sym, rec)
                if r is not True:
                    if r is False:
                        raise Fail_("elements of the slice are overwritten instead of exchanged")
                    raise Unclear("cannot tell that the loop only exchanges elements")
        out = s.copy()
        if vecs or arr is not None and not any(n.op == "store" or n in self.versions for n in arr.nexts):
            # the array is rearranged in ways not followed, before anything is known of it
            if arr is not None:
                out.base, out.segs, out.singles = arr.sym, [], []
            for p in ints:
                if p.step is not None or all(self.incr(p, n) for n in p.nexts):
                    pass
            res = [out]
            if vecs:
                z, m = out.copy(), out.copy()
                for p in rec.phis:
                    if p in ints:
                        z.facts.append((sub_(patom(p.sym), self.P(p.init)), "="))
                    elif p in vecs:
                        z.facts.append((sub_(self.P(len_(p.sym)), self.P(len_(p.init))), "="))
                        if rec.backs and all(self.grows(n, p.sym) for n in p.nexts):
                            m.facts.append((sub_(plus(self.P(len_(p.init)), 1), self.P(len_(p.sym))), "<="))
                res = [z, m]
            return [self.close(r, rec) for r in res]
        if arr is None:
            return [self.close(out, rec)]
        return [self.fix(s, rec, xi, arr, ints)]

    def isnum(self, p):
        return p.init.op in ("int", "add", "sub", "sum", "len", "div", "min", "max", "mul", "sym", "phi") and not self.version(p.init) and \
            not any(n.op in ("vpush", "vnew", "agg", "ref", "store") for n in p.nexts)

    def incr(self, p, n):
        return n is add(p.sym, ONE)

    def grows(self, n, sym):
        return n.op == "vpush" and (n.a[0] is sym or self.grows(n.a[0], sym))

    def permok(self, n, base, rec):
        """a loop's next array is a rearrangement of the loop's array, possibly through inner loops"""
        seen = 0
        while seen < 40:
            seen += 1
            if n is base:
                return True
            if n.op == "store":
                st = []
                t = n
                while t.op == "store":
                    t = t.a[0]
                r = self.is_perm(n, t)
                if r is not True:
                    return r
                n = t
                continue
            if n.op in ("subupd", "selected", "sortedby", "reversed"):
                r = self.is_perm(n, n.a[0])
                if r is not True:
                    return r
                n = n.a[0]
                continue
            inner = [e.a[0] for b in rec.backs for e in b.events if e.k == "loop"]
            nx = None
            for r in inner:
                p = r.phi_of(n)
                if p is not None:
                    for m in p.nexts:
                        q = self.permok(m, p.sym, r)
                        if q is not True:
                            return q
                    nx = p.init
            if nx is None:
                return None
            n = nx
        return None

    def close(self, s, rec):
        for p in rec.phis:
            c = rec.closed.get(p.sym)
            if c is not None:
                s.facts.append((sub_(patom(p.sym), self.P(c)), "="))
        return s

    def fix(self, s, rec, xi, arr, ints):
        seg = lambda l: tuple((alg.pkey(lo), alg.pkey(hi), m) for lo, hi, m in l)
        k = (id(rec), self.fkey(s.facts), s.base, seg(s.segs), tuple((alg.pkey(i), m) for i, m in s.singles), self.recording)
        if k not in self.memo:
            b0, self.bounds = self.bounds, {}
            v0, self.vague = self.vague, []
            r = self.fix1(s, rec, xi, arr, ints)
            self.memo[k] = (r, self.bounds, self.vague, rec, set(self.versions))
            self.bounds, self.vague = b0, v0
        r, b, v, _, vs = self.memo[k]
        for sp, ok in b.items():
            self.bounds[sp] = self.bounds.get(sp, True) and ok
        self.vague += v
        self.versions |= vs
        return r.copy()

    def fix1(self, s, rec, xi, arr, ints):
        """invariants of a loop that rearranges the array"""
        bot = arr.init
        t = bot
        while t.op == "store":
            t = t.a[0]
        if t is not s.base:
            if not self.version(t):
                raise Unclear("array %s at a loop" % show(arr.init, 4))
            if s.base is None or t is self.slice0 or t in self.versions or t.op in ("selected", "sortedby", "subupd", "reversed"):
                s = s.copy()
                s.base, s.segs, s.singles = t, [], []
            else:
                raise Unclear("array %s at a loop" % show(arr.init, 4))
        init = {p: self.P(p.init) for p in ints}
        x = {p: patom(p.sym) for p in ints}
        # candidate segments, with the classes found so far
        segs = {}
        order = []

        def cand(lo, hi):
            k = (alg.pkey(lo), alg.pkey(hi))
            if k not in segs and k[0] != k[1]:
                segs[k] = [lo, hi, 0]
                order.append(k)
        old = [(lo, hi) for lo, hi, m in s.segs] + [(i, plus(i, 1)) for i, m in s.singles]
        for p in ints:
            for lo, hi in old:
                if alg.pkey(hi) == alg.pkey(init[p]):
                    cand(lo, x[p])
                if alg.pkey(lo) == alg.pkey(init[p]):
                    cand(x[p], hi)
                if alg.pkey(lo) == alg.pkey(plus(init[p], 1)):
                    cand(plus(x[p], 1), hi)
        for p in ints:
            cand(init[p], x[p])
            cand(x[p], init[p])
            cand(plus(x[p], 1), plus(init[p], 1))
            for q in ints:
                if p is not q:
                    cand(x[p], x[q])
        for lo, hi in old:
            cand(lo, hi)
        cand({}, patom(self.N))
        # linear candidates
        lins = []
        for p in ints:
            lins.append((sub_(init[p], x[p]), "<="))
            lins.append((sub_(x[p], init[p]), "<="))
            lins.append((pscale(x[p], -1), "<="))
            lins.append((sub_(x[p], patom(self.N)), "<="))
        for a in range(len(ints)):
            for b in range(a):
                p, q = ints[a], ints[b]
                for sg in (1, -1):
                    d = padd(sub_(x[p], init[p]), sub_(x[q], init[q]), sg)
                    lins.append((d, "="))
                lins.append((sub_(x[p], x[q]), "<="))
                lins.append((sub_(x[q], x[p]), "<="))
        for b in rec.backs + rec.exits:
            for e in b.events:
                if e.k == "guard":
                    for f, r in self.lin(e.a[0], True) + self.lin(e.a[0], False):
                        if r in ("<", "<=") and any(tt in [p.sym for p in ints] for m in f for tt in m):
                            lins.append((f, "<="))
        sub0 = lambda f: self.substall(f, {p.sym: init[p] for p in ints})
        lf = []
        seen = set()
        ef, _ = self.counting(s)
        for f, r in lins:
            k = (alg.pkey(f), r)
            if k in seen:
                continue
            seen.add(k)
            if self.prove(ef, sub0(f), r):
                lf.append((f, r))
        # entry
        for k in order:
            lo, hi, m = segs[k]
            j = patom(self.J())
            l0, h0 = sub0(lo), sub0(hi)
            segs[k][2] |= self.elem(s, arr.init, j, ef + [(sub_(l0, j), "<="), (sub_(j, h0), "<"), (pscale(j, -1), "<="), (sub_(j, patom(self.N)), "<")])
        self.note_round()
        for rnd in range(12):
            changed = False
            inner = St(self.minimal(s.facts, lf), arr.sym, [tuple(segs[k]) for k in order if segs[k][2] != ALLC], [])
            for bi, b in enumerate(rec.backs):
                rs = self.recording
                self.recording = False
                ends = self.walk(inner.copy(), b.events)
                self.recording = rs
                nx = {p.sym: self.P(p.nexts[bi]) for p in ints}
                for t in ends:
                    tf, _ = self.counting(t)
                    keep = []
                    for f, r in lf:
                        if self.prove(tf, self.substall(f, nx), r):
                            keep.append((f, r))
                        else:
                            changed = True
                    lf = keep
                    for k in order:
                        lo, hi, m = segs[k]
                        if m == ALLC:
                            continue
                        j = patom(self.J())
                        l1, h1 = self.substall(lo, nx), self.substall(hi, nx)
                        r = self.elem(t, arr.nexts[bi], j, tf + [(sub_(l1, j), "<="), (sub_(j, h1), "<"), (pscale(j, -1), "<="), (sub_(j, patom(self.N)), "<")])
                        if r & ~m:
                            segs[k][2] |= r
                            changed = True
            if not changed:
                break
        else:
            raise Unclear("no fixpoint")
        inner = St(self.minimal(s.facts, lf), arr.sym, [tuple(segs[k]) for k in order if segs[k][2] != ALLC], [])
        if self.recording:
            for b in rec.backs:
                self.walk(inner.copy(), b.events)
        inner.segs = self.prune(inner)
        return self.close(inner, rec)

    def prune(self, st):
        """drop the segments that others contain"""
        res = []
        for i, (lo, hi, m) in enumerate(st.segs):
            if m == 0:
                if self.le(st.facts, hi, lo):
                    continue
            drop = False
            for k, (l2, h2, m2) in enumerate(st.segs):
                if k == i or m2 & ~m:
                    continue
                if self.le(st.facts, l2, lo) and self.le(st.facts, hi, h2):
                    if m2 == m and k > i and self.le(st.facts, lo, l2) and self.le(st.facts, h2, hi):
                        continue
                    drop = True
                    break
            if not drop:
                res.append((lo, hi, m))
        return res

    def minimal(self, facts, lf):
        """the facts with those of lf that the others do not imply"""
        lf = list(lf)
        i = len(lf) - 1
        while i >= 0:
            f = lf.pop(i)
            if not self.prove(facts + lf, *f):
                lf.insert(i, f)
            i -= 1
        return facts + lf

    def J(self):
        """an arbitrary index"""
        return self.jsym

    def note_round(self):
        pass

    def substall(self, f, m):
        r = {}
        for mono, c in f.items():
            q = {(): c}
            for t in mono:
                q = alg.pmul(q, m[t] if t in m else patom(t))
            r = padd(r, q)
        return r

    # -- the pivot
    def find_pivot(self, evs):
        """the key every comparison has in common"""
        common = None
        for e in allevents(evs):
            if e.k == "guard":
                for x in walk(e.a[0]):
                    if x.op in ("lt", "le", "eq"):
                        ks = set(y for y in x.a if self.keyof(y) is not None)
                        if len(ks) == 2:
                            common = ks if common is None else common & ks
        if common is None:
            return None
        if len(common) != 1:
            raise Unclear("comparisons without a common pivot")
        return next(iter(common))

    def pivot_in_slice(self, P, evs, depth=0):
        """is the point value P an element of the slice?"""
        if depth > 8:
            return False
        if P.op == "idx" and self.version(P.a[0]):
            return True
        if P.op == "deref":
            return self.ref_in_slice(P.a[0], evs, depth + 1)
        return False

    def ref_in_slice(self, r, evs, depth):
        if depth > 8:
            return False
        if r.op == "ref" and r.a[0] is self.cell and len(r.a) == 2 and r.a[1].op == "pi":
            return True
        if r.op in ("deref",):
            return self.ref_in_slice(r.a[0], evs, depth + 1)
        if r.op == "ref" and len(r.a) == 2 and r.a[1].op == "pi" and r.a[0].op == "D":
            return self.refs_vec(r.a[0].a[0], evs, depth + 1)
        if r.op == "idx":
            return self.refs_vec(r.a[0], evs, depth + 1)
        return False

    def refs_vec(self, v, evs, depth):
        """are all elements of the vector references into the slice?"""
        while v.op in ("selected", "sortedby", "reversed", "vpopped", "hvec"):
            v = v.a[0]
        for e in allevents(evs):
            if e.k == "loop":
                p = e.a[0].phi_of(v)
                if p is not None:
                    def ok(n):
                        if n is p.sym or n.op == "vnew":
                            return True
                        return n.op == "vpush" and ok(n.a[0]) and self.ref_in_slice(n.a[1], evs, depth + 1)
                    return ok(p.init) and all(ok(n) for n in p.nexts)
        return False

    # -- the contract
    def run(self):
        fn = self.key
        b = self.body
        site = b["span"]
        si = [i for i in range(b["argc"]) if point_slice(b, ptype(b, i))]
        ai = axis_params(b)
        if len(si) != 1 or len(ai) != 1:
            self.obs.add(self.RULE, fn, site, UNK, "cannot tell the slice and the axis from the parameters")
            return
        eng, outs = summarise(self.pkg, self.cfg, fn)
        ps = params(b)
        self.sp, self.axis = ps[si[0]], ps[ai[0]]
        self.cell = Dcell(self.sp)
        self.slice0 = raw("deref", self.sp)
        self.t0 = time.process_time()
        for s, v in outs:
            evs = s.events()
            self.path(eng, s, v, evs, site)

    def path(self, eng, s, v, evs, site):
        fn = self.key
        at = evs[-1].sp if evs else site
        self.versions, self.counts, self.counted = set(), {}, set()
        self.context(None)
        self.vague = []
        self.bounds = {}
        self.N, self.Ls, self.Es = raw("len", self.slice0), sym("#smaller"), sym("#equal")
        self.jsym = sym("#j")
        self.K = None
        L, E, N = patom(self.Ls), patom(self.Es), patom(self.N)
        self.base0 = [(pscale(L, -1), "<="), (pscale(E, -1), "<="), (sub_(padd(L, E), N), "<="), (pscale(N, -1), "<="),
                      (sub_(pconst(1), patom(alg.THREADS)), "<=")]
        try:
            K = self.find_pivot(evs)
            self.K = K
            inslice = False
            for e in allevents(evs):
                if e.k == "loop":
                    for p in e.a[0].phis:
                        if p.cell is self.cell and not p.path:
                            self.versions.add(p.sym)
            if K is not None:
                inslice = self.pivot_in_slice(self.keyof(K), evs)
                if inslice:
                    self.base0.append((sub_(pconst(1), E), "<="))
            self.context((K, inslice))
            self.recording = True
            st = St([(sub_(pconst(1), N), "<=")], self.slice0, [], [])
            if isinstance(v, Panic):
                if self.bad_axis(evs):
                    return
                ends = self.walk(st, evs)
                bad = []
                for t in ends:
                    f, _ = self.counting(t)
                    if not self.infeasible(f):
                        bad.append(t)
                if any("chunk" in str(x) for x in ()):
                    pass
                if bad:
                    # a chunk size of zero given by the caller is refused by the standard library
                    w = self.reached(evs)
                    if w:
                        self.obs.add("partition-panic", fn, at, BAD, "the panic (%s) is reached with %s" % (v, w))
                        return
                    if self.caller_chunk(evs, bad):
                        return
                    self.obs.add("partition-panic", fn, at, UNK, "cannot exclude the panic (%s)" % v)
                else:
                    self.obs.add("partition-panic", fn, at, OK_, "the panic cannot be reached (%s)" % str(v)[:40])
                return
            ends = self.walk(st, evs)
            self.result(eng, s, v, evs, ends, at, inslice)
        except Unclear as e:
            self.obs.add(self.RULE, fn, at, UNK, "not followed: %s" % e)
        except Fail_ as e:
            self.obs.add(self.RULE, fn, at, BAD, str(e))

    def bad_axis(self, evs):
        """the caller gave an axis outside the dimensions"""
        b = self.prog.bodies[self.key]
        ds = [raw("cparam", g[0]) for g in b["generics"] if g[1] == "const"]
        inv = [(lt(p, d), True) for i, p in enumerate(params(b)) if ptype(b, i)["k"] == "int" for d in ds]
        return bool(inv) and alg.contradict([g for g in guards(evs) if has(g[0], lambda x: x in ds)] + inv)

    def reached(self, evs):
        """an input with which the path is taken, its loops ending at once; a chunk size of zero is the caller's fault"""
        from panics import ev
        m, facts = {}, [(c, v) for c, v in guards(evs)]
        for e in allevents(evs):
            if e.k == "loop":
                for p in e.a[0].phis:
                    m[p.sym] = p.init
        for _ in range(6):
            if not any(x in m for c, _ in facts for x in walk(c)):
                break
            facts = [(subst(c, m), v) for c, v in facts]
        n = len_(self.slice0)
        atoms = {n: (1, 1000, 99999, 100000, 120000, 1 << 20)}
        for c, _ in facts:
            for x in walk(c):
                if x is alg.THREADS or x.op == "threads":
                    atoms[x] = (1, 8)
                elif x.op == "cparam":
                    atoms[x] = (1, 3)
                elif x.op == "is" and x.a[0].op in ("param", "sym"):
                    atoms[x] = (True, False)
                elif x.op == "fld" and x.a[0].op in ("param", "sym") and x.a[1:] == (1, 0):
                    atoms[x] = (1, 5, 1000, 200000, 1 << 22)
                elif x.op in ("param", "sym") and any(y.op == "lt" and y.a[0] is x and y.a[1].op == "cparam" for y in walk(c)):
                    atoms[x] = (0,)
        keys = sorted(atoms, key=lambda t: t.id)
        if len(keys) > 7:
            return None
        for vals in itertools.product(*[atoms[k] for k in keys]):
            asg = dict(zip(keys, vals))
            if all(ev(c, asg, ()) is v for c, v in facts):
                return ", ".join("%s = %s" % (show(k, 3), x) for k, x in asg.items() if k.op in ("fld", "len"))
        return None

    def caller_chunk(self, evs, bad):
        """the panic needs a chunk size that the caller gave"""
        for c, val in guards(evs):
            if c.op == "is" and val and c.a[0].op in ("param", "sym", "arg"):
                return True
        return False

    def result(self, eng, s, v, evs, ends, at, inslice):
        fn = self.key
        obs = self.obs
        if not ends:
            obs.add(self.RULE, fn, at, OK_, "a path that cannot be taken")
            return
        refs = list(v.a[2:]) if v.op == "agg" else []
        if len(refs) != 3:
            raise Unclear("the result is %s" % show(v, 3))
        rng = []
        for k, r in enumerate(refs):
            if r.op != "ref" or r.a[0] is not self.cell or len(r.a) > 2:
                raise Unclear("the result refers to %s" % show(r, 4))
            p = r.a[1] if len(r.a) == 2 else None
            if p is None:
                rng.append((pconst(0), patom(self.N)))
            elif p.op == "ps" and k != 1:
                rng.append((self.P(p.a[0]), self.P(p.a[1])))
            elif p.op == "pi" and k == 1:
                rng.append((self.P(p.a[0]), plus(self.P(p.a[0]), 1)))
            else:
                raise Unclear("the result refers to %s" % show(r, 4))
        X = eng.read(s, self.cell, ())
        for t in ends:
            f, _ = self.counting(t)
            want = [("the lower side starts at the first element", rng[0][0], {}), ("the dividing point follows the lower side", rng[0][1], rng[1][0]),
                    ("the upper side follows the dividing point", rng[1][1], rng[2][0]), ("the upper side ends with the slice", rng[2][1], patom(self.N))]
            for w, a, b in want:
                ok = self.prove(f, sub_(a, b), "=")
                d = sub_(a, b)
                st = OK_ if ok else BAD if alg.isconst(d) and alg.cval(d) else UNK
                obs.add(self.RULE, fn, at, st, w if ok else "not shown: %s" % w)
        self.balance(ends, rng[1][0], at)
        if X.op == "selected" and self.is_perm(X.a[0], self.slice0) and self.K is None:
            ax = cmp_axis(X.a[2])
            ok = ax is self.axis
            clear = ax is not None or X.a[2].op in ("cmp", "cmpcases") and not imprecise(X.a[2])
            obs.add(self.RULE, fn, at, OK_ if ok else BAD if clear else UNK,
                    "the selection compares the component along the axis" if ok else "the selection does not order the points by the component along the axis: %s" % show(X.a[2], 5))
            m = self.P(X.a[1])
            for t in ends:
                ok = self.prove(self.counting(t)[0], sub_(m, rng[1][0]), "=")
                d = sub_(m, rng[1][0])
                obs.add(self.RULE, fn, at, OK_ if ok else BAD if alg.isconst(d) else UNK,
                        "the dividing point is the selected one" if ok else "the dividing point is not the selected one")
            return
        if X.op == "sortedby" and self.is_perm(X.a[0], self.slice0) and self.K is None:
            ax = cmp_axis(X.a[1])
            ok = ax is self.axis
            obs.add(self.RULE, fn, at, OK_ if ok else BAD if ax is not None else UNK, "the points are sorted by the component along the axis")
            return
        if self.K is None:
            raise Unclear("no pivot and no selection")
        if not inslice:
            self.vague.append("the pivot")
        if not self.counted:
            self.vague.append("counts")
        want = [(rng[0], LT | EQ, "lower"), (rng[1], EQ, "dividing"), (rng[2], EQ | GT, "upper")]
        for t in ends:
            f, _ = self.counting(t)
            base = X
            while base.op == "store":
                base = base.a[0]
            if X is not base and self.is_perm(X, base) is not True:
                raise Fail_("elements of the slice are overwritten instead of exchanged") if self.is_perm(X, base) is False else Unclear("the last exchange")
            for (lo, hi), ok, nm in want:
                j = patom(self.jsym)
                m = self.elem(t, X, j, f + [(sub_(lo, j), "<="), (sub_(j, hi), "<"), (pscale(j, -1), "<="), (sub_(j, patom(self.N)), "<")])
                if m & ~ok:
                    st = UNK if self.vague else BAD
                    obs.add(self.RULE, fn, at, st, "%s can hold a point that is %s than the pivot" % ("the dividing position" if nm == "dividing" else "the %s side" % nm, names(m & ~ok))
                            + (" (%s not followed)" % self.vague[0] if self.vague else ""))
                else:
                    obs.add(self.RULE, fn, at, OK_, "the %s hold%s points %s than or equal to the pivot" % ("dividing position" if nm == "dividing" else nm + " side", "s", names(ok & ~EQ) or "neither smaller nor greater"))
        obs.add(self.RULE, fn, at, OK_, "every write exchanges elements of the slice")
        for sp, ok in sorted(self.bounds.items()):
            obs.add("partition-bounds", fn, sp, OK_ if ok else UNK if self.vague or not self.counted else BAD,
                    "the pointer stays within the slice" if ok else "the pointer can leave the slice")


    def balance(self, ends, pos, at):
        """equal points are divided in the middle: otherwise the tree over n of them is n levels deep"""
        L, E, N = patom(self.Ls), patom(self.Es), patom(self.N)
        world = [(L, "="), (sub_(E, N), "=")] if self.K is not None else []
        if self.K is not None and not self.counted:
            return
        for t in ends:
            f = self.counting(t)[0] + world
            if self.infeasible(f):
                continue
            big = f + [(sub_(pconst(8), N), "<=")]
            if self.prove(big, sub_(sub_(N, pscale(pos, 4)), pconst(4)), "<=") and self.prove(big, sub_(sub_(pscale(pos, 4), pscale(N, 3)), pconst(4)), "<="):
                st, what = OK_, "points that are all equal are divided in the middle"
            elif not self.infeasible(big) and (self.prove(big, sub_(pos, pconst(1)), "<=") or self.prove(big, sub_(sub_(N, pconst(2)), pos), "<=")):
                st, what = BAD, "of points that are all equal, one side gets (almost) none: as many levels as points, and the recursion as deep"
            else:
                st, what = UNK, "it is not shown how points that are all equal are divided"
            self.obs.add("partition-balance", self.key, at, st, what)


class Fail_(Exception):
    pass
