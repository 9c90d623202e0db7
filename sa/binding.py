"""The Python module: what its classes compute, raise and keep, from the methods down to the calls into the Rust crate.

Every method of a #[pyclass] is analysed together with everything it calls (trait objects resolved to each implementing
type in turn); calls of the crate's exported functions stay symbolic, their own behaviour being decided by the other rules.

py-rows   values, their row order, the tree queried and the arguments of every query
py-shape  shapes of the arrays returned
py-build  the tree kept by the constructor: data, leaf size, split level, box
py-refuse no valid argument is refused
py-error  no panic and no swallowed error: bad arguments give an exception
py-owner  the object shares the ownership of the array its tree refers to
py-module every class is in the module"""
from core import *
from pymodels import rows, cols
import panics

CASES = ("absent", "one", "many")


def arrays(term):
    """arrays mentioned as flat(A), memory(A)…"""
    return [x for x in walk(term) if x.op in ("flat", "flat1", "memory")]


def okof(t):
    """m and the index when t is (a part of) the Ok value of call m: (m, index, component)"""
    c = None
    while t.op == "fld":
        if t.a[1] == 0 and t.a[0].op == "callret":
            return t.a[0].a[0], (t.a[0].a[1] if len(t.a[0].a) > 1 else None), c
        if t.a[1] is None:
            c = t.a[2]
        t = t.a[0]
    return None


def factors(t):
    return factors(t.a[0]) + factors(t.a[1]) if t.op == "mul" else [t]


class Stop(Exception):
    def __init__(self, status, msg, rule):
        self.status, self.msg, self.rule = status, msg, rule


class Binding:
    def __init__(self, obs):
        self.obs = obs
        self.prog = program("pyfnntw", ())
        self.stop = tuple(k for k, b in self.prog.bodies.items() if b["crate"] == "fnntw" and b.get("exported") and b["kind"] in ("Fn", "AssocFn")
                          and b["name"] not in ("get_data", "size"))
        self.R = Roles(self.prog, "fnntw")

    # ---- what there is
    def classes(self):
        res = {}
        for im in self.prog.impls:
            if im["trait"] and im["trait"].split("::")[-1] == "PyClassImpl" and im["crate"] == "pyfnntw":
                ts = self.types()
                t = ts[im["self"]]
                if t["k"] == "adt":
                    res[t["path"]] = im
        return res

    def types(self):
        for b in self.prog.bodies.values():
            if b["crate"] == "pyfnntw":
                return b["types"]

    def methods(self, path):
        for k, b in sorted(self.prog.bodies.items()):
            if b["crate"] == "pyfnntw" and b["kind"] == "AssocFn" and b.get("bbs") and b.get("impl_self") is not None and not b.get("impl_trait") \
                    and "__pymethod" not in k:
                t = b["types"][b["impl_self"]]
                if t["k"] == "adt" and t["path"] == path:
                    yield k, b

    def devirts(self, b):
        """types behind the trait objects of the class"""
        res = []
        a = self.prog.adts[b["types"][b["impl_self"]]["path"]]
        for f in a["variants"][0]["fields"]:
            s = a["types"][f["ty"]]["s"]
            if "dyn " not in s:
                continue
            for im in self.prog.impls:
                if im["trait"] and im["crate"] == "pyfnntw" and ("dyn " + im["trait"]) in s:
                    ft = [self.types()[x["t"]]["s"] for x in im["args"][1:] if isinstance(x, dict) and "t" in x]
                    if all(("<" + x) in s or len(x) < 3 for x in ft):
                        t = self.types()[im["self"]]["s"]
                        if t not in res:
                            res.append(t)
        return res or [None]

    def run(self):
        cs = self.classes()
        if not cs:
            self.obs.add("py-module", "", "", UNK, "no Python class found")
        self.module(cs)
        for path in sorted(cs):
            ctor = query = 0
            for k, b in self.methods(path):
                roles = self.roles(b)
                ret = b["types"][b["locals"][0]]["s"]
                if "self" not in roles and path.split("::")[-1] in ret:
                    ctor += 1
                    self.each(k, b, [None], self.constructor)
                elif "self" in roles and "array" in roles:
                    query += 1
                    self.each(k, b, self.devirts(b), self.query)
                else:
                    self.obs.note("other methods")
            if not ctor or not query:
                self.obs.add("py-module", path, "", UNK, "no %s found" % ("constructor" if not ctor else "query method"))
            self.obs.note("classes")

    def roles(self, b):
        """self / array / box / k / axis / leafsize / level of each parameter"""
        names = {}
        for n, pl in b["names"]:
            if not pl[1] and 1 <= pl[0] <= b["argc"]:
                names.setdefault(pl[0] - 1, n)
        res = []
        for i in range(b["argc"]):
            s = ptype(b, i)["s"]
            if "PyRef<" in s or "PyRefMut<" in s or i == 0 and s.startswith("&") and "Py" not in s:
                res.append("self")
            elif "usize; 2]" in s and "PyReadonlyArray" in s and "Option" not in s:
                res.append("array")
            elif "usize; 1]" in s and "Option" in s:
                res.append("box")
            elif s == "usize":
                res.append("int")
            elif s.endswith("Option<usize>"):
                res.append("opt:" + names.get(i, ""))
            else:
                res.append("?")
        return res

    def each(self, k, b, devirts, f):
        # dimensions: whichever the calls into the crate have
        outs = {}
        for d in devirts:
            try:
                outs[d] = summarise("pyfnntw", (), k, stop_at=self.stop, devirt=d)
            except Imprecise as e:
                for r in ("py-rows", "py-error"):
                    self.obs.add(r, k, b["span"], UNK, "not analysed: %s" % e)
                return
        self.k, self.b = k, b
        self.ps = params(b)
        self.ro = self.roles(b)
        for d in devirts:
            eng, os = outs[d]
            self.impl = d
            self.dims = sorted({dict(e.a[3])["D"] for s, v in os for e in allevents(s.events()) if e.k == "reccall" and "D" in dict(e.a[3]) and isinstance(dict(e.a[3])["D"], (int, T))},
                               key=str)
            self.dims = [num(x) if isinstance(x, T) else x for x in self.dims]
            self.dims = [x for x in self.dims if x is not None]
            self.obs.note("paths", len(os))
            f(eng, os)

    def param(self, role):
        return self.ps[self.ro.index(role)] if role in self.ro else None

    def site(self, s):
        evs = [e for e in s.events() if e.sp]
        return evs[-1].sp if evs else self.b["span"]

    # ---- facts of a path
    def facts(self, s):
        """guards of a path in order, and those met inside its loops with what precedes them"""
        return guards(s.events())

    def norm(self, fs, extra={}):
        """facts with the known number of columns put in; None when they contradict each other"""
        m = dict(extra)
        for c, v in fs:
            if v and c.op == "eq":
                for x, y in (c.a, c.a[::-1]):
                    if x.op in ("cols", "len1") and num(y) is not None:
                        m[x] = y
        res = []
        for c, v in fs:
            c2 = subst(c, m)
            while c2.op == "not":
                c2, v = c2.a[0], not v
            if c2.op == "bool":
                if c2.a[0] != v:
                    return None, m
                continue
            res.append((c2, v))
        if alg.contradict(res):
            return None, m
        return res, m

    def modes(self, opts):
        """every combination of absent / one / many for the optional arguments: (name, substitution, facts)"""
        res = [({}, {}, [])]
        for nm, p in opts:
            nxt = []
            for case, m, fs in res:
                for c in (CASES if nm == "k" else ("absent", "given")):
                    m2, f2 = dict(m), list(fs)
                    some_ = raw("is", p, 1)
                    v = fld(p, 1, 0)
                    if c == "absent":
                        m2[some_], m2[raw("is", p, 0)] = FALSE, TRUE
                    else:
                        m2[some_], m2[raw("is", p, 0)] = TRUE, FALSE
                    if c == "one":
                        m2[v] = ONE
                    if c == "many":
                        m2[raw("eq", v, ONE)] = m2[raw("eq", ONE, v)] = FALSE
                    nxt.append(({**case, nm: c}, m2, f2))
            res = nxt
        return res

    def legit(self, fs, arr):
        """why an error or an exit is in order: something invalid or a failure elsewhere; None if nothing is"""
        for c, v in fs:
            t = c
            if t.op == "forall":
                t = t.a[-1]
            if t.op == "is" and t.a[0].op == "callret":
                n = t.a[1]
                if v != (n == 0) or c.op == "forall":
                    return "an error of the crate"
            if t.op == "is" and t.a[0].op in ("call",) and v != (t.a[1] == 0):
                return "a failure outside"
            if c.op in ("contig", "gapless") and not v:
                return "not contiguous"
            if c.op == "eq" and not v and any(x.op == "len1" for x in walk(c)):
                return "the length of the box"
        return None

    def free(self):
        r = set()
        for p, ro in zip(self.ps, self.ro):
            if ro == "int":
                r.add(p)
            if ro.startswith("opt:"):
                r.add(fld(p, 1, 0))
            if ro == "array":
                r.add(rows(p))
        return r

    def axisval(self):
        for p, ro in zip(self.ps, self.ro):
            if ro == "opt:axis":
                return fld(p, 1, 0)

    def satisfiable(self, fs, D, invalid=False):
        """an assignment of the arguments for which the facts hold (valid arguments unless `invalid`); None unknown"""
        fr = self.free()
        arr = self.param("array")
        asg0 = {cols(arr): D, raw("contig", arr): True, raw("gapless", arr): True} if arr is not None else {}
        for p, ro in zip(self.ps, self.ro):
            if ro == "box":
                for x in {x for c, v in fs for x in walk(c)}:
                    if x.op == "len1":
                        asg0[x] = D
                    if x.op in ("contig", "gapless"):
                        asg0[x] = True
        lens = {x for c, v in fs for x in walk(c) if x.op == "len" and not any(y.op in ("callret", "phi", "havoc", "call") for y in walk(x))}
        fr |= lens
        atoms, rel = set(), []
        for c, v in fs:
            at = {x for x in walk(c) if x in fr}
            if c.op == "is" and (c.a[0] in self.ps):
                continue
            if c.op == "is" and c.a[0].op == "callret":
                continue
            if c.op == "forall" and v:
                continue
            if panics.ev(c, {**asg0, **{a: 1 for a in fr}}, fr) is None:
                # a fact about the environment
                if c.op == "call" or c.op == "is" and c.a[0].op == "call":
                    continue
                if c.op == "lt" and any(x.op == "phi" for x in walk(c)):
                    continue
                return None
            rel.append((c, v))
            atoms |= at
        ax = self.axisval()
        atoms = sorted(atoms, key=lambda t: t.id)
        if len(atoms) > 4:
            return None

        def go(i, asg):
            if i == len(atoms):
                return asg if all(panics.ev(c, asg, fr) is v for c, v in rel) else None
            for x in (panics.TRIES if atoms[i] is not ax or invalid else range(D)):
                if atoms[i] in lens and x == 0:
                    continue
                r = go(i + 1, {**asg, atoms[i]: x})
                if r:
                    return r
        r = go(0, dict(asg0))
        if r is None:
            return False
        return ", ".join("%s = %d" % (show(a, 4), x) for a, x in r.items() if a in atoms) or "any valid argument"

    # ---- errors
    def errors(self, s, v, D):
        """panics on the way, and how the path ends"""
        k = self.k
        if isinstance(v, Panic):
            fs, _ = self.norm(self.facts(s))
            if fs is None:
                self.obs.add("py-error", k, self.site(s), OK_, "")
                return
            self.panic(fs, D, self.site(s), "panics instead of raising an exception: %s" % v)
        for e, fs in self.inner(s.events(), []):
            if e.k == "maypanic":
                what, cond = e.a[0], e.a[1]
                n, m = self.norm(fs)
                if n is None:
                    continue
                c2 = subst(cond, m)
                if c2.op == "bool" and c2.a[0] or alg.implies(n, c2):
                    self.obs.add("py-error", k, e.sp, OK_, "")
                    continue
                self.panic(n + [(c2, False)], D, e.sp, "may panic: %s" % what)

    def inner(self, evs, fs):
        fs = list(fs)
        for e in evs:
            if e.k == "guard":
                fs.append((e.a[0], e.a[1]))
            elif e.k == "loop":
                rec = e.a[0]
                for p in list(rec.backs) + list(rec.exits):
                    yield from self.inner(p.events, fs)
            else:
                yield e, fs

    def panic(self, fs, D, sp, msg):
        # the result of a query may be an error whenever its arguments are bad; so may the construction
        st, why = UNK, ""
        for d in (D if isinstance(D, list) else [D]):
            if d is None:
                continue
            loose = [(c, v) for c, v in fs if not (c.op in ("contig", "gapless") or c.op == "eq" and any(x.op in ("cols", "len1") for x in walk(c)))]
            w = self.satisfiable(loose, d, True)
            if w:
                st, why = BAD, w
        bad = [("%s%s" % ("" if v else "not ", show(c, 5))) for c, v in fs if c.op in ("contig", "gapless", "is")]
        self.obs.add("py-error", self.k, sp, st, msg + (" (%s)" % "; ".join([why] + bad[:2]) if st == BAD else ""))

    # ---- query methods
    def query(self, eng, outs):
        arr = self.param("array")
        opts = []
        os_ = [(ro.split(":")[1], p) for p, ro in zip(self.ps, self.ro) if ro.startswith("opt:")]
        for i, (n, p) in enumerate(os_):
            opts.append((n if n in ("k", "axis") else ("k", "axis")[i] if i < 2 else n, p))
        self.opts = dict(opts)
        if len(self.dims) != 1:
            self.obs.add("py-rows", self.k, self.b["span"], UNK, "the dimension of the tree behind %s is not known" % self.impl)
            return
        D = self.dims[0]
        answered = set()
        for s, v in outs:
            self.errors(s, v, D)
            if isinstance(v, Panic):
                continue
            if not (v.op == "agg" and str(v.a[0]).endswith("Result")):
                self.obs.add("py-rows", self.k, self.site(s), UNK, "the result %s" % show(v, 3))
                continue
            for mode, m, f2 in self.modes(opts):
                fs, mm = self.norm(self.facts(s) + f2, m)
                if fs is None:
                    continue
                if v.a[1] == 1:
                    self.refusal(s, fs, D, arr)
                    continue
                answered.add(tuple(sorted(mode.items())))
                try:
                    self.answer(eng, s, v.a[2], mode, fs, mm, D)
                    self.obs.add("py-rows", self.k, self.site(s), OK_, "")
                except Stop as e:
                    self.obs.add(e.rule, self.k, self.site(s), e.status, "%s (%s, %d-D tree)" % (e.msg, ", ".join("%s %s" % x for x in mode.items()), D))
        for mode, m, f2 in self.modes(opts):
            ok = tuple(sorted(mode.items())) in answered
            self.obs.add("py-refuse", self.k, self.b["span"], OK_ if ok else UNK, "" if ok else "no query with %s is answered" % ", ".join("%s %s" % x for x in mode.items()))

    def refusal(self, s, fs, D, arr):
        """a path that raises although nothing is wrong"""
        why = self.legit(fs, arr)
        if why:
            self.obs.add("py-refuse", self.k, self.site(s), OK_, "")
            return
        f2, _ = self.norm([(subst(c, {cols(arr): I(D)}), v) for c, v in fs])
        if f2 is None:
            self.obs.add("py-refuse", self.k, self.site(s), OK_, "")
            return
        w = self.satisfiable(f2, D)
        if w is False:
            self.obs.add("py-refuse", self.k, self.site(s), OK_, "")
            return
        self.obs.add("py-refuse", self.k, self.site(s), BAD if w else UNK, "valid arguments are refused (%s)" % (w or "undecided"))

    def answer(self, eng, s, val, mode, fs, m, D):
        arr = self.param("array")
        # what the array must have been found to be
        if not any(c.op == "eq" and v and cols(arr) in c.a and I(D) in c.a for c, v in self.facts(s)) and subst(cols(arr), m) is not I(D):
            n, _ = self.norm([(subst(c, {cols(arr): I(D + 1)}), v) for c, v in fs])
            raise Stop(BAD if n is not None and self.satisfiable(n, D + 1) else UNK, "an array with another number of columns is accepted", "py-error")
        for c, v in fs:
            if c.op == "is" and c.a[0].op == "callret" and v != (c.a[1] == 0):
                raise Stop(BAD, "the error of a query is dropped and a result returned", "py-error")
        tr = {c: B(v) for c, v in fs}
        v = subst(subst(val, m), tr)
        m = dict(m)
        if not (v.op == "agg" and len(v.a) == 4):
            raise Stop(UNK, "the result %s" % show(v, 3), "py-rows")
        one = mode.get("axis", "absent") == "absent" and mode.get("k", "absent") in ("absent", "one")
        k = self.opts.get("k")
        kk = ONE if k is None or mode["k"] in ("absent", "one") else fld(k, 1, 0)
        n = rows(arr)
        for c, a in enumerate(v.a[2:4]):
            if a.op not in ("nd1", "nd2"):
                raise Stop(UNK, "the array %s" % show(a, 3), "py-rows")
            vec = a.a[-1]
            if any(x.op == "anyorder" for x in walk(vec)):
                raise Stop(BAD, "the rows are collected in any order", "py-rows")
            for x in arrays(vec):
                if x.op == "memory" and x.a[0] is arr:
                    raise Stop(BAD, "the query is read in the order of its memory, which need not be that of its rows", "py-rows")
            cnt = self.values(eng, s, vec, c, kk, mode, fs, m, tr, D)
            if one:
                if a.op == "nd2":
                    st = BAD
                    raise Stop(st, "a query for one neighbor returns a two-dimensional array", "py-shape")
                if not self.eqi(cnt, ONE, fs):
                    raise Stop(UNK, "the number of values per row is %s" % show(cnt, 4), "py-shape")
                continue
            if a.op == "nd1":
                raise Stop(BAD, "a query for k neighbors returns a one-dimensional array", "py-shape")
            r, w = a.a[0], a.a[1]
            empty = any(x is eq(n, ZERO) and v for x, v in fs) or self.eqi(n, ZERO, fs)
            if not self.eqi(r, n, fs):
                raise Stop(self.status(r, n, fs), "the array has %s rows" % show(r, 4), "py-shape")
            if empty:
                continue
            w = self.unlen(w, s, kk, n, m)
            if not self.eqi(w, cnt, fs):
                raise Stop(self.status(w, cnt, fs), "the array has %s columns, and %s values per row" % (show(w, 5), show(cnt, 5)), "py-shape")

    def unlen(self, t, s, kk, n, mm):
        """lengths of the crate's results written out: one value per row and neighbor"""
        m = {}
        for x in walk(t):
            if x.op == "len":
                o = okof(x.a[0])
                if o and o[1] is None:
                    e = self.reccall(s, o[0])
                    if e and len(e.a[1]) > 2:
                        m[x] = mul(n, min_(subst(e.a[1][2], mm), self.count()))
        return subst(t, m) if m else t

    def count(self):
        return raw("npoints", self.ps[0])

    def tidy(self, t):
        """lengths of the tree's data are one number; exact quotients"""
        m = {}
        for z in walk(t):
            if z.op == "len" and any(q is self.param("self") for q in walk(z)) and not any(q.op in ("callret", "phi") for q in walk(z)):
                m[z] = self.count()
        if m:
            t = subst(t, m)
        m = {}
        for z in walk(t):
            if z.op == "div":
                fs = factors(z.a[0])
                if z.a[1] in fs:
                    fs.remove(z.a[1])
                    r = ONE
                    for f in fs:
                        r = mul(r, f)
                    m[z] = r
        return subst(t, m) if m else t

    def eqi(self, x, y, fs):
        """equality of whole numbers (quotients by the number of rows are taken where there are rows)"""
        x, y = self.tidy(x), self.tidy(y)
        if x is y:
            return True
        fs2 = [(self.tidy(c), v) for c, v in fs]
        return alg.implies(fs2, raw("le", x, y)) and alg.implies(fs2, raw("le", y, x))

    def status(self, x, y, fs):
        """BAD when some arguments make the two numbers differ, UNK otherwise"""
        x, y = self.tidy(x), self.tidy(y)
        atoms = set()
        for t in (x, y):
            for z in walk(t):
                if z.op in ("rows", "npoints", "phi") or z in self.free():
                    atoms.add(z)
        if panics.ev(x, {a: 1 for a in atoms}, atoms) is None or panics.ev(y, {a: 1 for a in atoms}, atoms) is None:
            return UNK
        rel = []
        for c, v in fs:
            c = self.tidy(c)
            at = [z for z in walk(c) if z.op in ("rows", "npoints", "phi") or z in self.free()]
            if panics.ev(c, {a: 1 for a in at}, atoms) is not None:
                rel.append((c, v))
                atoms |= set(at)
        atoms = sorted(atoms, key=lambda t: t.id)
        if len(atoms) > 4:
            return UNK

        def go(i, asg):
            if i == len(atoms):
                a, b = panics.ev(x, asg, atoms), panics.ev(y, asg, atoms)
                return a is not None and b is not None and a != b and all(panics.ev(c, asg, atoms) is v for c, v in rel)
            return any(go(i + 1, {**asg, atoms[i]: q}) for q in panics.TRIES if q > 0 or atoms[i].op not in ("rows", "npoints"))
        return BAD if go(0, {}) else UNK

    def reccall(self, s, n):
        for e in allevents(s.events()):
            if e.k == "reccall" and e.a[2] == n:
                return e

    def loopof(self, evs, n):
        """the loop an event of call n belongs to, innermost"""
        for e in evs:
            if e.k == "loop":
                rec = e.a[0]
                for p in list(rec.backs) + list(rec.exits):
                    if any(x.k == "reccall" and x.a[2] == n for x in p.events):
                        return e, rec
                    r = self.loopof(p.events, n)
                    if r:
                        return r

    def fname(self, e):
        return self.prog.bodies[e.a[0]]["name"]

    def tree_ok(self, e):
        """the tree queried is that of the object"""
        t = e.a[1][0]
        if not any(x is self.param("self") for x in walk(t)):
            raise Stop(UNK, "the tree queried is %s" % show(t, 4), "py-rows")

    def queryarg(self, eng, s, ref, m, tr, D):
        """(index or None for the whole array) of the row(s) a reference designates"""
        if ref.op == "sym":
            raise Stop(UNK, "the query %s" % show(ref, 4), "py-rows")
        c, p = place_of(ref)
        try:
            v = subst(subst(eng.read(s, c, []), m), tr)
        except Exception:
            raise Stop(UNK, "the query %s" % show(ref, 4), "py-rows")
        arr = self.param("array")
        good = raw("chunks", raw("flat", arr), I(D))
        if v is not good:
            st = UNK
            if v.op == "chunks" and (v.a[0].op == "memory" or v.a[0] is good.a[0] and v.a[1].op == "int"):
                st = BAD
            raise Stop(st, "the rows queried are %s" % show(v, 5), "py-rows")
        return p

    def whole(self, eng, s, ref, m, tr, D, fs):
        p = self.queryarg(eng, s, ref, m, tr, D)
        if not p:
            return
        if len(p) == 1 and p[0].op == "ps":
            lo, hi = subst(p[0].a[0], m), subst(p[0].a[1], m)
            if lo is ZERO and self.eqi(hi, rows(self.param("array")), fs):
                return
            raise Stop(UNK if imprecise(lo, hi) else BAD if lo is not ZERO else self.status(hi, rows(self.param("array")), fs), "only the rows from %s to %s are queried" % (show(lo, 4), show(hi, 4)), "py-rows")
        raise Stop(UNK, "the rows %s" % show(ref, 4), "py-rows")

    def values(self, eng, s, vec, c, kk, mode, fs, m, tr, D):
        """Checks that vec holds, row after row, component c of the right query; the number of values per row."""
        axis = mode.get("axis", "absent") != "absent"
        n = rows(self.param("array"))
        o = okof(vec)
        what = ("distances", "indices") if not axis else ("distances along the axis", "other distances")
        if o is not None:
            if o[1] is not None:
                raise Stop(UNK, "the values %s" % show(vec, 4), "py-rows")
            e = self.reccall(s, o[0])
            if e is None:
                raise Stop(UNK, "the call is not found", "py-rows")
            nm = self.fname(e)
            want = "query_nearest_k_parallel_axis" if axis else "query_nearest_k_parallel"
            if nm != want:
                raise Stop(BAD if nm in ("query_nearest_k_parallel_axis", "query_nearest_k_parallel", "query_nearest_k_parallel_with") else UNK,
                           "the values come from %s" % nm, "py-rows")
            self.tree_ok(e)
            self.whole(eng, s, e.a[1][1], m, tr, D, fs)
            self.karg(e, kk, m, fs)
            if axis:
                self.axisarg(e, m)
            if o[2] != c:
                raise Stop(BAD, "the %s are result %s of the query" % (what[c], o[2]), "py-rows")
            return min_(kk, self.count())
        if vec.op == "mapseq":
            b, lo, hi, body = open_(vec)
            o = okof(body)
            if o is None or o[1] is None:
                raise Stop(UNK, "the values %s" % show(body, 4), "py-rows")
            e = self.reccall(s, o[0])
            lp = self.loopof(s.events(), o[0])
            if e is None or lp is None:
                raise Stop(UNK, "the call is not found", "py-rows")
            if axis:
                raise Stop(UNK, "an axis query by rows", "py-rows")
            if self.fname(e) != "query_nearest":
                raise Stop(UNK, "the values come from %s" % self.fname(e), "py-rows")
            self.tree_ok(e)
            self.row(eng, s, e, lp, o[1], sub(b, lo), m, tr, D, fs)
            if not self.eqi(sub(hi, lo), n, fs):
                raise Stop(self.status(sub(hi, lo), n, fs), "the result has %s rows" % show(sub(hi, lo), 4), "py-rows")
            if o[2] != c:
                raise Stop(BAD, "the %s are result %s of the query" % (what[c], o[2]), "py-rows")
            return ONE
        if vec.op == "setlen":
            return self.buffer(eng, s, vec, c, kk, mode, fs, m, tr, D, what)
        if vec.op == "vnew" or vec.op == "phi" and self.unpushed(s, vec):
            # nothing is ever pushed, and no length is set
            if self.eqi(n, ZERO, fs):
                return min_(kk, self.count())
            raise Stop(self.status(n, ZERO, fs), "no %s are returned" % what[c], "py-rows")
        raise Stop(UNK, "the values %s" % show(vec, 4), "py-rows")

    def unpushed(self, s, vec):
        """a vector a loop only writes into (through a pointer): its length stays that of the start, 0"""
        for e in s.events():
            if e.k == "loop":
                for p in e.a[0].phis:
                    if p.sym is vec:
                        return p.init.op == "vnew" and all(y is vec or y.op in ("arrlam", "store") and self.into(y) is vec for y in p.nexts)
        return False

    def into(self, y):
        while y.op in ("arrlam", "store"):
            y = open_(y)[4] if y.op == "arrlam" else y.a[0]
        return y

    def row(self, eng, s, e, lp, at, want, m, tr, D, fs):
        """the row queried for output row `want` is that row; `at` is the value of the iteration"""
        rec = lp[1]
        g = rec.guard
        if g is None or g["iv"] is None:
            raise Stop(UNK, "the loop over the rows is not understood", "py-rows")
        p = self.queryarg(eng, s, e.a[1][1], m, tr, D)
        if len(p) != 1 or p[0].op != "pi":
            raise Stop(UNK, "the row %s" % show(e.a[1][1], 4), "py-rows")
        got = subst(subst(p[0].a[0], {g["iv"].sym: at}), m)
        if got is not want and alg.same(got, want) is not True:
            raise Stop(self.rowstatus(got, want), "row %s is queried for row %s" % (show(got, 5), show(want, 5)), "py-rows")

    def rowstatus(self, got, want):
        """two numbers of a row, the row and the place in it being free"""
        atoms = {z for t in (got, want) for z in walk(t) if z.op in ("phi", "bv", "rows", "npoints") or z in self.free()}
        for q in ({a: 3 + i for i, a in enumerate(sorted(atoms, key=lambda t: t.id))}, {a: 1 for a in atoms}):
            a, b = panics.ev(got, q, atoms), panics.ev(want, q, atoms)
            if a is not None and b is not None and a != b:
                return BAD
        return UNK

    def karg(self, e, kk, m, fs):
        got = subst(e.a[1][2], m)
        if not (self.eqi(got, kk, fs) or self.eqi(got, min_(kk, self.count()), fs)):
            raise Stop(self.status(min_(got, self.count()), min_(kk, self.count()), fs), "the query asks for %s neighbors" % show(got, 5), "py-rows")

    def axisarg(self, e, m):
        got = subst(e.a[1][3], m)
        want = fld(self.opts["axis"], 1, 0)
        if got is not want:
            raise Stop(UNK if imprecise(got) else BAD, "the query is for axis %s" % show(got, 5), "py-rows")

    def buffer(self, eng, s, vec, c, kk, mode, fs, m, tr, D, what):
        """a buffer filled by the rows in parallel"""
        x, L = vec.a[0], subst(vec.a[1], m)
        n = rows(self.param("array"))
        loops = [e for e in s.events() if e.k == "loop"]
        hit = [(e, e.a[0], p) for e in loops for p in e.a[0].phis if p.sym is x]
        if x.op == "vnew":
            raise Stop(self.status(L, ZERO, fs), "the %s are never written" % what[c], "py-rows")
        if len(hit) != 1:
            raise Stop(UNK, "the buffer %s" % show(x, 4), "py-rows")
        e0, rec, phi = hit[0]
        g = rec.guard
        if g is None or g["iv"] is None:
            raise Stop(UNK, "the loop over the rows is not understood", "py-rows")
        if not getattr(rec.exits[e0.a[1]], "normal", False):
            raise Stop(UNK, "the loop over the rows can stop early", "py-rows")
        if phi.init.op not in ("vnew",):
            raise Stop(UNK, "the buffer starts as %s" % show(phi.init, 3), "py-rows")
        cnt = None
        for bi, bp in enumerate(rec.backs):
            y = phi.nexts[bi]
            if y.op == "store" and y.a[0] is phi.sym:
                b = bv()
                y = bind("arrlam", b, y.a[1], add(y.a[1], ONE), y.a[2], phi.sym)
            if y.op != "arrlam":
                raise Stop(UNK if y is not phi.sym else BAD, "some rows are not written" if y is phi.sym else "the row is written as %s" % show(y, 4), "py-rows")
            b, lo, hi, body, base = open_(y)
            if base is not phi.sym or any(z is phi.sym for z in walk(body)):
                raise Stop(UNK, "the row is written as %s" % show(y, 4), "py-rows")
            fi, _ = self.norm(guards(bp.events), m)
            if fi is None:
                continue
            # what is known behind the loop is about the last values of its variables
            own = {q.sym for q in rec.phis}
            ff = [f for f in fs if not any(z in own for z in walk(f[0]))] + fi
            lo, hi, body = (subst(z, m) for z in (lo, hi, body))
            if body.op != "idx":
                raise Stop(UNK, "the row is written as %s" % show(body, 4), "py-rows")
            o = okof(body.a[0])
            if o is None:
                raise Stop(UNK, "the row is written as %s" % show(body, 4), "py-rows")
            e = self.reccall(s, o[0])
            lp = self.loopof(s.events(), o[0])
            if e is None or lp is None or lp[1] is not rec:
                raise Stop(UNK, "the call is not found", "py-rows")
            if mode.get("axis", "absent") != "absent" or self.fname(e) != "query_nearest_k":
                raise Stop(UNK, "the values come from %s" % self.fname(e), "py-rows")
            self.tree_ok(e)
            self.karg(e, kk, m, fs)
            iv = g["iv"].sym
            self.row(eng, s, e, lp, iv, sub(iv, subst(g["lo"], m)), m, tr, D, fs)
            if o[2] != c:
                raise Stop(BAD, "the %s are result %s of the query" % (what[c], o[2]), "py-rows")
            width = sub(hi, lo)
            if not self.eqi(width, min_(kk, self.count()), ff):
                raise Stop(self.status(width, min_(kk, self.count()), ff), "%s values are copied per row" % show(width, 5), "py-rows")
            start = mul(width, sub(iv, g["lo"]))
            if not self.eqi(lo, start, ff):
                raise Stop(self.status(lo, start, ff), "row %s is written from %s" % (show(iv), show(lo, 5)), "py-rows")
            if not self.eqi(body.a[1], sub(b, lo), ff + [(raw("le", lo, b), True), (raw("lt", b, hi), True)]):
                raise Stop(self.rowstatus(body.a[1], sub(b, lo)), "place %s of a row gets value %s" % (show(sub(b, lo), 5), show(body.a[1], 5)), "py-rows")
            cnt = width
        trip = sub(subst(g["hi"], m), subst(g["lo"], m))
        if not self.eqi(trip, n, fs):
            raise Stop(self.status(trip, n, fs), "%s rows are queried" % show(trip, 5), "py-rows")
        if cnt is None:
            raise Stop(UNK, "no row is written", "py-rows")
        if not self.eqi(L, mul(n, cnt), fs):
            raise Stop(self.status(L, mul(n, cnt), fs), "the buffer is given the length %s" % show(L, 5), "py-rows")
        return cnt

    # ---- constructors
    def constructor(self, eng, outs):
        arr = self.param("array")
        if arr is None:
            self.obs.add("py-build", self.k, self.b["span"], UNK, "no array argument")
            return
        opts = [(ro.split(":")[1] or "level", p) for p, ro in zip(self.ps, self.ro) if ro.startswith("opt:")]
        box = self.param("box")
        if len(opts) != 1 or box is None or self.ro.count("int") != 1:
            self.obs.add("py-build", self.k, self.b["span"], UNK, "arguments %s" % ", ".join(self.ro))
            return
        level = opts[0][1]
        built = set()
        dims = self.dims
        for s, v in outs:
            self.errors(s, v, list(dims))
            if isinstance(v, Panic):
                continue
            if not (v.op == "agg" and str(v.a[0]).endswith("Result")):
                self.obs.add("py-build", self.k, self.site(s), UNK, "the result %s" % show(v, 3))
                continue
            for mode, m, f2 in self.modes([("level", level), ("box", box)]):
                fs, mm = self.norm(self.facts(s) + f2, m)
                if fs is None:
                    continue
                if v.a[1] == 1:
                    if self.legit(fs, arr):
                        self.obs.add("py-refuse", self.k, self.site(s), OK_, "")
                        continue
                    for D in dims:
                        self.refusal(s, fs, D, arr)
                    continue
                try:
                    D = self.built(eng, s, v.a[2], mode, fs, mm, level, box)
                    built.add((D,) + tuple(sorted(mode.items())))
                    self.obs.add("py-build", self.k, self.site(s), OK_, "")
                except Stop as e:
                    self.obs.add(e.rule, self.k, self.site(s), e.status, "%s (%s)" % (e.msg, ", ".join("%s %s" % x for x in mode.items())))
                try:
                    self.owner(eng, s, v.a[2], arr)
                    self.obs.add("py-owner", self.k, self.site(s), OK_, "")
                except Stop as e:
                    self.obs.add(e.rule, self.k, self.site(s), e.status, e.msg)
        for D in dims:
            ok = any(x[0] == D for x in built)
            self.obs.add("py-refuse", self.k, self.b["span"], OK_ if ok else UNK, "" if ok else "no %d-D tree is built" % D)

    def built(self, eng, s, val, mode, fs, m, level, box):
        arr = self.param("array")
        leaf = self.param("int")
        tr = {c: B(v) for c, v in fs}
        val = subst(val, m)
        for c, v in fs:
            if c.op == "is" and c.a[0].op == "callret" and v != (c.a[1] == 0):
                raise Stop(BAD, "the error of the construction is dropped and an object returned", "py-error")
        calls = {e.a[2]: e for e in allevents(s.events()) if e.k == "reccall"}
        found = sorted({x.a[0] for x in walk(val) if x.op == "callret"})
        deepv = val
        if not found:
            # the tree may be held by reference
            try:
                deepv = subst(self.deepall(eng, s, val), m)
            except Exception:
                pass
            found = sorted({x.a[0] for x in walk(deepv) if x.op == "callret"})
        used = [n for n in found if n in calls]
        if len(used) != 1:
            raise Stop(UNK, "the tree kept is not found", "py-build")
        e = calls[used[0]]
        nm = self.fname(e)
        boxed = None
        if nm == "with_boxsize":
            boxed = e
            o = okof(e.a[1][0])
            if o is None or o[0] not in calls:
                raise Stop(UNK, "the tree given the box is %s" % show(e.a[1][0], 4), "py-build")
            e = calls[o[0]]
            nm = self.fname(e)
        if nm not in ("new", "new_parallel"):
            raise Stop(UNK, "the tree comes from %s" % nm, "py-build")
        D = dict(e.a[3]).get("D")
        D = num(D) if isinstance(D, T) else D
        if D is None:
            raise Stop(UNK, "the dimension is not known", "py-build")
        if subst(cols(arr), m) is not I(D):
            n, _ = self.norm([(subst(c, {cols(arr): I(D + 1)}), v) for c, v in fs])
            raise Stop(BAD if n is not None and self.satisfiable(n, D + 1) else UNK, "an array with another number of columns is accepted", "py-error")
        self.whole(eng, s, e.a[1][0], m, tr, D, fs)
        got = subst(e.a[1][1], m)
        if not self.eqi(got, leaf, fs):
            raise Stop(self.status(got, leaf, fs), "the leaf size is %s" % show(got, 4), "py-build")
        if mode["level"] == "given":
            if nm != "new_parallel":
                raise Stop(BAD, "the split level is not used", "py-build")
            got = subst(e.a[1][2], m)
            if not self.eqi(got, fld(level, 1, 0), fs):
                raise Stop(self.status(got, fld(level, 1, 0), fs), "the split level is %s" % show(got, 4), "py-build")
        elif nm != "new":
            raise Stop(UNK, "a parallel construction without a split level", "py-build")
        if mode["box"] == "given":
            if boxed is None:
                raise Stop(BAD, "the box is not used", "py-build")
            ref = boxed.a[1][1]
            v = boxed.a[4][1] if len(boxed.a) > 4 else None
            v = subst(v, m) if v is not None else None
            b = fld(box, 1, 0)
            want = raw("flat1", b)
            if v is None or v is not want and not all(idx(v, I(i)) is idx(want, I(i)) for i in range(D)):
                st = UNK
                if v is not None and v.op in ("agg", "repeat", "store", "arrlam") and not imprecise(v):
                    st = BAD
                raise Stop(st, "the box is %s" % (show(v, 4) if v is not None else show(ref, 4)), "py-build")
        elif boxed is not None:
            raise Stop(BAD, "a box is set although none is given", "py-build")
        return D

    def deepall(self, eng, s, v, n=6):
        if not isinstance(v, T) or n == 0:
            return v
        if v.op == "ref":
            return self.deepall(eng, s, eng.load(s, v), n - 1)
        if v.op == "undef" and v.a[0].op == "L" and v.a[0].a[0] == 1 and 1 <= v.a[0].a[1] <= len(self.ps):
            return self.ps[v.a[0].a[1] - 1]          # the place of a parameter, when its frame has gone
        if v.op == "agg":
            return raw("agg", v.a[0], v.a[1], *[self.deepall(eng, s, x, n - 1) for x in v.a[2:]])
        return v

    def owner(self, eng, s, val, arr):
        refs = any(x.op in ("flat", "memory") and x.a[0] is arr for c in self.celldata(eng, s, val) for x in walk(c))
        t = self.b["types"][self.b["impl_self"]]
        a = self.prog.adts[t["path"]]
        held = []
        for i, f in enumerate(a["variants"][0]["fields"]):
            if "pyo3::Py<" in a["types"][f["ty"]]["s"] or "PyReadonly" in a["types"][f["ty"]]["s"]:
                x = val.a[2 + i] if val.op == "agg" and len(val.a) > 2 + i else None
                if x is None:
                    raise Stop(UNK, "the object %s" % show(val, 3), "py-owner")
                held.append(self.deepall(eng, s, x))
        if any(x is arr for x in held):
            return
        if not refs:
            raise Stop(UNK, "the data of the tree are not found", "py-owner")
        if any(e.k == "opaque" and any(w in str(e.a[0]) + str(e.a[2]) for w in ("forget", "leak", "into_ptr", "into_raw")) for e in allevents(s.events())):
            raise Stop(UNK, "the array may be leaked", "py-owner")
        held = [subst(x, {raw("copyof", arr): sym("a copy")}) for x in held]
        if any(any(y is arr for y in walk(x)) or imprecise(x) for x in held):
            raise Stop(UNK, "the array held is %s" % show(held[0], 4), "py-owner")
        raise Stop(BAD, "the tree refers to the array, and nothing in the object keeps the array alive", "py-owner")

    def celldata(self, eng, s, val):
        """contents of everything the calls into the crate were given"""
        res = [val]
        for e in allevents(s.events()):
            if e.k == "reccall":
                for x in e.a[1]:
                    if x.op == "ref":
                        c, p = place_of(x)
                        try:
                            res.append(eng.read(s, c, []))
                        except Exception:
                            pass
        return res

    # ---- module
    def module(self, cs):
        import purity
        added = set()
        mods = [k for k, b in self.prog.bodies.items() if b["crate"] == "pyfnntw" and b["kind"] == "Fn" and b.get("bbs")
                and any("PyModule" in ptype(b, i)["s"] for i in range(b["argc"]))]
        if not mods:
            self.obs.add("py-module", "", "", UNK, "no module function found")
            return
        reach = purity.Reach(self.prog, mods)
        other = False
        for k, b in reach.seen.items():
            for bb in b["bbs"]:
                t = bb["t"]
                if t[0] == "call" and isinstance(t[1], dict) and "fn" in t[1]:
                    f = t[1]["fn"]
                    if f["name"] == "add_class":
                        for a in f["args"]:
                            if "t" in a:
                                added.add(b["types"][a["t"]].get("path"))
                    elif f["name"] in ("add", "add_wrapped", "add_function", "add_submodule", "setattr"):
                        other = True
        for c in sorted(cs):
            self.obs.add("py-module", mods[0], self.prog.bodies[mods[0]]["span"], OK_ if c in added else UNK if other or any(x is None for x in added) else BAD,
                         "" if c in added else "the class %s is not added to the module" % c.split("::")[-1])
