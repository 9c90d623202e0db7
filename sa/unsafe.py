"""Every operation whose safety the compiler does not check (unchecked indexing, raw pointer access, unwrap_unchecked,
set_len) gives an obligation: its condition must follow from the facts on the path.

Facts: the conditions of the branches taken, the ranges of counters, the lengths of arrays in their types, and the
invariants of the structures (links lead into the node list, the dimension of a stem is below D, a container holds at
most its limit).  Conditions over the parameters of a private function are moved to its callers."""
from core import *
from search import ContainerShape
import entry as entry_
import build as build_


def inner(t, ops):
    return [x for x in walk(t) if x.op in ops]


class Unsafe:
    RULE = "unsafe"

    def __init__(self, obs, pkg, cfg, R):
        self.obs, self.pkg, self.cfg, self.R = obs, pkg, cfg, R
        self.prog = program(pkg, cfg)
        self.searches = entry_.search_functions(self.prog, R)
        self.parts = list(build_.partition_functions(self.prog))
        sc = self.prog.sccs()
        self.rec = [k for k, b in self.prog.bodies.items() if b.get("bbs") and b["crate"] == "fnntw" and b["kind"] in ("Fn", "AssocFn") and sc.get(k)]
        self.builders = [k for k in self.rec if k not in self.searches and "Node" in str([t.get("s") for t in self.prog.bodies[k]["types"]])
                         and any("Vec<Node" in self.pts(k, i) for i in range(self.prog.bodies[k]["argc"]))]
        self.shapes = []
        for a in sorted(self.prog.adts):
            if a.split("::")[-1].startswith("Container"):
                try:
                    self.shapes.append(ContainerShape(self.prog, a))
                except (Imprecise, KeyError):
                    pass
        self.lift = {}         # function -> [(guards over its constants, condition over its parameters, site)]
        self.done = {}         # (function, site, condition) -> status, detail
        self.calls = []        # (caller, event, facts)
        self.grown = []        # vectors grown by writes beyond their length
        self.inits_all = {}

    def pts(self, k, i):
        b = self.prog.bodies[k]
        return ptype(b, i)["s"]

    def roots(self):
        for k in sorted(self.prog.bodies):
            b = self.prog.bodies[k]
            if b["crate"] != "fnntw" or not b.get("bbs") or b["kind"] not in ("Fn", "AssocFn") or "::tests::" in k:
                continue
            if b.get("exported") and not b.get("unsafe") or k in self.rec or k in self.parts:
                yield k

    def run(self):
        stop = tuple(sorted(set(self.rec) | set(self.parts)))
        for k in self.roots():
            self.obs.note("functions with unchecked operations or callers of such")
            try:
                eng, outs = summarise(self.pkg, self.cfg, k, stop_at=[x for x in stop if x != k])
            except Imprecise as e:
                self.obs.add(self.RULE, k, self.prog.bodies[k]["span"], UNK, "not analysed: %s" % e)
                continue
            self.function(k, eng, outs)
        self.lifted()
        self.grown = [(k, (k, e), base) for k, e, base in self.grown]
        self.growth()
        sites = set()
        for (k, sp, kind), (st, d) in sorted(self.done.items(), key=lambda x: str(x[0])):
            self.obs.add(self.RULE, k, sp, st, d)
            sites.add(sp)
        self.obs.note("unchecked operations (sites)", len(sites))

    # ---- one function
    def function(self, k, eng, outs):
        b = self.prog.bodies[k]
        self.k, self.eng = k, eng
        self.steps, self.inits = {}, {}
        self.ps = params(b)
        self.private = not b.get("exported")
        roles = [classify_param(b, i, self.R) for i in range(b["argc"])]
        self.treep = self.ps[roles.index("tree")] if "tree" in roles else None
        self.consts = [raw("cparam", g[0]) for g in b["generics"] if g[1] == "const"]
        self.E = None
        if k in entry_.entry_points(self.prog, self.R):
            try:
                self.E = entry_.Entry(Obs(), self.pkg, self.cfg, k, self.R)
            except Imprecise:
                pass
        self.inv = []
        if self.treep is not None:
            t = deref(self.treep)
            n = len_(deref(fld(t, None, self.R.input)))
            root = fld(t, None, self.R.root)
            self.inv = [(lt(ZERO, n), True), (eq(len_(fld(t, None, self.R.data)), n), True), (lt(ZERO, len_(fld(root, self.R.leaf, self.R.l_points))), True)]
            self.n = n
        # elements of the queue: the links that are pushed on it
        self.queue_ok = True
        self.pushes = 0
        for s, v in outs:
            for e in allevents(s.events()):
                if e.k == "push" and self.link_elem(e.a[1]) is False:
                    self.queue_ok = False
        for s, v in outs:
            evs = s.events()
            if self.E is not None:
                self.E.phi, self.E.pos, self.E.before = {}, {}, {}
                self.E.index(evs, [])
            self.finish(s, v, self.walk(evs, [], {}))

    def finish(self, s, v, facts):
        pass

    def link_elem(self, x):
        """does the tuple pushed hold a link of a node?  None: no index in it"""
        if x.op != "agg":
            return None
        for y in x.a[2:]:
            r = self.link_val(y)
            if r is not None:
                return r
        return None

    def link_val(self, y):
        if y.op == "ite":
            a, b = self.link_val(y.a[1]), self.link_val(y.a[2])
            return a if a == b else (False if False in (a, b) else None)
        if y.op == "ref":
            return self.link(deref(y)) if y.a[-1].op == "pf" and len(y.a[-1].a) > 1 and y.a[-1].a[0] == self.R.stem and y.a[-1].a[1] in (self.R.s_left, self.R.s_right) else None
        return True if self.link(y) else None

    def link(self, t):
        return t.op == "fld" and t.a[1] == self.R.stem and t.a[2] in (self.R.s_left, self.R.s_right)

    def walk(self, evs, facts, counters):
        facts = list(facts)
        for e in evs:
            if e.k == "guard":
                facts.append((e.a[0], e.a[1]))
            elif e.k == "loop":
                rec = e.a[0]
                lf, cn = [], dict(counters)
                iv = (rec.guard or {}).get("iv")
                for p in rec.phis:
                    self.inits_all[p.sym] = p.init
                    self.inits[p.sym] = (p.init, (rec.guard or {}).get("iv") is not None)
                    if p.nexts and all(num(sub(n, p.sym)) is not None for n in p.nexts):
                        ds = [num(sub(n, p.sym)) for n in p.nexts]
                        if len(set(ds)) == 1 and num(p.init) is not None:
                            self.steps[p.sym] = (num(p.init), ds[0])
                        cn[p.sym] = iv is not None and p.sym is iv.sym
                        if all(d >= 0 for d in ds):
                            lf.append((le(p.init, p.sym), True))
                        if all(d <= 0 for d in ds):
                            lf.append((le(p.sym, p.init), True))
                for bp in rec.backs:
                    self.walk(bp.events, facts + lf, cn)
            elif e.k == "unsafe":
                self.unchecked(e, facts, counters)
            elif e.k == "setlen":
                self.setlen(e, facts, counters)
            elif e.k == "reccall":
                self.calls.append((self.k, e, list(facts), (list(self.inv), self.treep, self.queue_ok, self.consts, self.E, getattr(self, "n", None))))
                for ci, x in enumerate(e.a[1]):
                    if e.a[0] in self.builders and "Vec<Node" in self.pts(e.a[0], ci):
                        facts.append((lt(ZERO, len_(raw("post", e.a[2], ci))), True))      # a builder adds its node

    # ---- facts about the terms of a condition
    def structure(self, ts, facts):
        """facts from the invariants of the structures"""
        res, seen = [], set()
        todo = list(ts)
        R = self.R
        nodes = len_(fld(deref(self.treep), None, R.nodes)) if self.treep is not None else None
        while todo:
            t = todo.pop()
            for x in walk(t):
                if x in seen:
                    continue
                seen.add(x)
                if self.link(x) and nodes is not None:
                    res.append((lt(x, nodes), True))
                elif x.op == "fld" and x.a[1] == R.stem and x.a[2] == R.s_dim:
                    for c in self.consts:
                        res.append((lt(x, c), True))
                elif self.queued(x) and nodes is not None and self.queue_ok:
                    res.append((lt(x, nodes), True))
                elif x.op == "rem":
                    res.append((lt(x, x.a[1]), True))
                elif x.op == "fld" and x.a[1] is None:
                    for cs in self.shapes:
                        if x.a[2] == cs.kf:
                            c = self.cap(x.a[0], cs, ())
                            if c is not None and c is not x:
                                res.append((eq(x, c), True))
                                todo.append(c)
                                break
                elif x.op == "len":
                    h = x.a[0]
                    while h.op in ("sorted", "sortedby", "hvec"):
                        h = h.a[0]
                    if h.op != "fld" or h.a[1] is not None:
                        continue
                    for cs in self.shapes:
                        if h.a[2] == cs.h:
                            c = self.cap(h.a[0], cs, ())
                            if c is not None:
                                res.append((le(x, c), True))
                                todo.append(c)
                                if self.full(h.a[0], cs, ()) and self.treep is not None and alg.implies(facts + self.inv + res, le(c, self.n)):
                                    res.append((le(c, x), True))
                                break
        return res

    def queued(self, x):
        """an index taken from the queue"""
        y = x
        if y.op == "deref":
            y = y.a[0]
        return y.op == "fld" and y.a[1] is None and y.a[0].op == "idx" and y.a[0].a[0].op in ("phi", "deref", "vpush", "vpopped", "setlen", "post") and (x.op == "deref")

    def cap(self, c, cs, seen):
        """the limit of a container value, None if unknown"""
        if c in seen:
            return "same"
        if c.op == "fupd" and c.a[1] is None and c.a[2] != cs.kf:
            return self.cap(c.a[0], cs, seen)
        if c.op == "agg" and str(c.a[0]).split("::")[-1].split("<")[0] == cs.adt.split("::")[-1]:
            k = fld(c, None, cs.kf)
            if k.op == "fld" and k.a[1] is None and k.a[2] == cs.kf and k.a[0].op in ("phi", "post", "fld", "idx"):
                return self.cap(k.a[0], cs, seen)
            return k
        if self.E is None:
            return None
        E = self.E
        if c.op == "post" and c.a[0] in E.pos:
            e, _ = E.pos[c.a[0]]
            m = self.searches.get(e.a[0])
            if m is None or m.get("container") != c.a[1]:
                return None
            return self.cap(e.a[4][m["container"]], cs, seen)
        if c.op in ("phi", "fld", "idx") and E.lookup(c):
            e, rec, p = E.phi[c]
            r = self.cap(p.init, cs, seen + (c, p.sym))
            for x in p.nexts:
                y = self.cap(x, cs, seen + (c, p.sym))
                if y is None or y != "same" and y is not r:
                    return None
            return r
        return None

    def full(self, c, cs, seen):
        """has a search filled this container?"""
        if c in seen:
            return True
        if c.op == "post":
            return c.a[0] in self.E.pos and self.E.pos[c.a[0]][0].a[0] in self.searches
        if self.E.lookup(c):
            e, rec, p = self.E.phi[c]
            return self.full(p.init, cs, seen + (c, p.sym)) and all(self.full(x, cs, seen + (c, p.sym)) for x in p.nexts)
        return False

    # ---- obligations
    def put(self, e, kind, st, detail=""):
        key = (self.k, e.sp, kind)
        old = self.done.get(key)
        rank = {OK_: 0, UNK: 1, BAD: 2}
        if old is None or rank[st] > rank[old[0]]:
            self.done[key] = (st, detail)

    def decide(self, e, kind, goal, facts, counters, what, precise=None):
        if goal is TRUE:
            return self.put(e, kind, OK_)
        fs = facts + self.inv
        if kind == "unwrap_unchecked" and any(c is goal and v for c, v in fs):
            return self.put(e, kind, OK_)
        fs = fs + self.structure([goal] + [c for c, v in facts], facts)
        if alg.contradict(fs):
            return self.put(e, kind, OK_)
        if goal is not FALSE and alg.implies(fs, goal):
            return self.put(e, kind, OK_)
        if goal.op == "lt" and self.product(fs, *goal.a):
            return self.put(e, kind, OK_)
        atoms = [x for x in walk(goal)]
        if self.private and all(self.overparams(x) for x in leaves(goal)) and goal is not FALSE:
            g = [(c, v) for c, v in facts if all(x.op == "cparam" or x.op == "bool" for x in leaves(c))]
            self.lift.setdefault(self.k, []).append((g, goal, e, kind, what))
            return self.put(e, kind, OK_)
        if precise is None:
            precise = self.precise(goal, fs, counters)
        self.put(e, kind, BAD if precise else UNK, what + ("" if goal is FALSE else ": %s does not follow" % show(goal, 7)))

    def overparams(self, x):
        return all(y in self.ps or y.op in ("lt", "le", "is", "cparam", "int", "add", "sub", "mul", "rem", "not", "param", "deref", "fld", "len") for y in walk(x))

    def precise(self, goal, fs, counters):
        if goal is FALSE:
            return not any(imprecise(c) for c, v in fs)
        if imprecise(goal) or goal.op not in ("lt", "le", "is"):
            return False
        if goal.op != "is" and self.witness(goal, fs):
            return True
        if goal.op == "is":
            return False
        ph = set()
        for m in alg.lin2(*goal.a):
            if len(m) > 1:
                return False
            for t in m:
                if t.op == "phi":
                    if not counters.get(t):
                        return False
                    ph.add(t)
                elif t.op not in ("sym", "param", "cparam", "len", "rem", "fld", "min", "max", "div"):
                    if not self.queued(t):
                        return False
                elif t.op == "fld" and not (self.link(t) or t.a[1] == self.R.stem and t.a[2] == self.R.s_dim):
                    return False
                elif t.op == "len" and (has(t, lambda x: x.op in ("phi", "post", "callret")) and not self.sized(t)):
                    return False
        return len(ph) <= 1

    def witness(self, goal, fs):
        """a dimension and a value of a counter with a constant step for which the path is taken and the bound does not hold"""
        vs = set(t for m in alg.lin2(*goal.a) for t in m)
        cs = [t for t in vs if t.op == "cparam"]
        ph = [t for t in vs if t in self.steps]
        if len(ph) != 1 or len(cs) != 1 or len(vs) != 2:
            return False
        c, p = cs[0], ph[0]
        i0, d = self.steps[p]
        rel = []
        for f, v in fs:
            ts = [y for y in leaves(f)]
            if any(y in (c, p) for y in ts) or has(f, lambda y: y is p):
                if any(y not in (c, p) and y.op not in ("int", "bool") for y in ts):
                    if has(f, lambda y: y is p):
                        return False
                    continue
                rel.append((f, v))
        for cv in range(1, 13):
            for m in range(13):
                pv = i0 + d * m
                if any(truth_at(f, c, cv, p, i0 + d * j) is not v for f, v in rel for j in range(m + 1)):
                    break
                if truth_at(goal, c, cv, p, pv) is False:
                    return True
        return False

    def sized(self, t):
        """the length of a container filled by a search"""
        h = t.a[0]
        while h.op in ("sorted", "sortedby", "hvec"):
            h = h.a[0]
        return h.op == "fld" and any(h.a[2] == cs.h and self.cap(h.a[0], cs, ()) is not None for cs in self.shapes)

    def product(self, fs, i, n):
        """i = a*B + r with a < A, r < B and A*B <= n"""
        ts = set(t for m in alg.opoly(i) for t in m)
        for x in [n] + [c.a[1] for c, v in fs if v and c.op == "le" and c.a[0] is n] + [c.a[1] for c, v in fs if v and c.op == "eq" and c.a[0] is n]:
            if x.op != "mul":
                continue
            for A, B in (x.a, x.a[::-1]):
                for B2 in [B] + [c.a[0] if c.a[1] is B else c.a[1] for c, v in fs if v and c.op == "eq" and B in c.a]:
                    for a in ts:
                        r = sub(i, mul(a, B2))
                        if not has(r, lambda y: y is a) and alg.implies(fs, lt(a, A)) and alg.implies(fs, lt(r, B)) and alg.implies(fs, le(ZERO, r)):
                            return True
        return False

    def unchecked(self, e, facts, counters):
        kind, cond = e.a[0], e.a[1]
        if cond is TRUE or e.a[2] is True:
            return self.put(e, kind, OK_)
        if kind == "from_raw_parts":
            return self.put(e, kind, UNK, "a slice made from a raw pointer")
        if self.k in self.parts and kind.startswith("pointer"):
            return      # decided with the partition
        what = {"get_unchecked": "an unchecked index", "unwrap_unchecked": "unwrap_unchecked of what may be absent", "pointer dereference": "an access through a raw pointer",
                "pointer copy": "a copy through a raw pointer"}.get(kind, kind)
        if kind == "unwrap_unchecked":
            goal = FALSE if e.a[2] is False else cond
            return self.decide(e, kind, goal, facts, counters, what)
        if kind.startswith("pointer") and len(e.a) >= 5:
            v, i = e.a[3], e.a[4]
            c = self.capacity(v)
            if c is None:
                return self.put(e, kind, UNK, "an access through a raw pointer into %s" % show(v, 4))
            return self.decide(e, kind, lt(i, c), facts, counters, what)
        self.decide(e, kind, cond, facts, counters, what)

    def capacity(self, v, n=0):
        """elements allocated for a vector value"""
        while n < 30:
            n += 1
            if v.op == "vnew":
                return v.a[0]
            if v.op in ("store", "setlen"):
                v = v.a[0]
            elif v.op == "arrlam":
                v = v.a[4]
            elif self.E is not None and v.op in ("phi", "fld", "idx") and self.E.lookup(v):
                e, rec, p = self.E.phi[v]
                if any(not self.samearr(x, p.sym) for x in p.nexts):
                    return None
                v = p.init
            elif v.op in ("repeat", "mapseq", "param") or v.op == "deref":
                return len_(v)
            else:
                return None
        return None

    def samearr(self, x, s):
        n = 0
        while x is not s and n < 30:
            n += 1
            if x.op in ("store",):
                x = x.a[0]
            elif x.op == "arrlam":
                x = x.a[4]
            elif self.E.lookup(x):
                e, rec, p = self.E.phi[x]
                if any(not self.samearr(y, p.sym) for y in p.nexts if y is not x):
                    return False
                x = p.init
            else:
                return False
        return x is s

    def covered(self, v):
        """the elements [0, result) of a vector value are initialised; None if unknown"""
        if v.op == "vnew":
            return ZERO
        if v.op == "arrlam":
            b, lo, hi, body, base = open_(v)
            c = self.covered(base)
            if lo is ZERO or c is lo:
                return hi
            return c if c is not None and c is not ZERO else None
        if v.op == "store":
            c = self.covered(v.a[0])
            return add(c, ONE) if c is not None and v.a[1] is c else c
        if v.op == "vpush":
            c = self.covered(v.a[0])
            return None if c is None else add(c, ONE)
        if v.op == "setlen":
            return v.a[1]
        if v.op in ("repeat", "mapseq", "deref", "param", "sorted", "subseq", "vpopped"):
            return len_(v)
        return None

    def setlen(self, e, facts, counters):
        n, v = e.a[1], e.a[2]
        c = self.covered(v)
        if n is ZERO:
            return self.put(e, "set_len", OK_)
        if c is None and self.E is not None and self.E.lookup(v):
            c = self.capacity(v)        # which elements are written: decided with the rows of the query function
            if c is not None:
                return self.decide(e, "set_len", le(n, c), facts, counters, "set_len beyond the capacity")
        if c is None and v.op == "store" and v.a[1] is len_(v.a[0]) and n is add(v.a[1], ONE):
            base, unbounded = v.a[0], False
            for _ in range(20):
                if base in self.inits:
                    base, counted = self.inits[base]
                    unbounded = unbounded or not counted
                elif base.op in ("vpush", "vpopped", "setlen", "store"):
                    base = base.a[0]
                else:
                    break
            if unbounded and not getattr(self.eng, "reserves", False) and not any(x.op == "cap" for c, _ in facts for x in walk(c)):
                self.grown.append((self.k, e, base))
                return
        if c is None:
            return self.put(e, "set_len", UNK, "which elements are initialised before set_len: %s" % show(v, 4))
        self.decide(e, "set_len", le(n, c), facts, counters, "set_len beyond the initialised elements")

    # ---- vectors that grow by writes beyond their length, in a loop nothing bounds
    def growth(self):
        todo, seen = list(self.grown), set()
        while todo:
            k, e, base = todo.pop()
            if (k, e, base) in seen:
                continue
            seen.add((k, e, base))
            if base.op == "vnew":
                c = base.a[0]
                known = not imprecise(c) and not any(x.op == "len" for x in walk(c))
                self.k = e[0]
                self.put(e[1], "set_len", BAD if known else UNK, "an element is added beyond the length in a loop nothing bounds, in room for %s elements" % show(c, 4))
                continue
            ps, up = params(self.prog.bodies[k]), []
            for caller, ev, facts, cx in self.calls:
                if ev.a[0] == k:
                    for p, v in zip(ps, ev.a[4]):
                        if v is not None and base is deref(p):
                            up.append((caller, e, self.origin(v)))
            if not up:
                self.k = e[0]
                self.put(e[1], "set_len", UNK, "which elements are initialised before set_len: %s" % show(base, 4))
            todo.extend(up)

    def origin(self, v):
        for _ in range(20):
            if v in self.inits_all:
                v = self.inits_all[v]
            elif v.op in ("vpush", "vpopped", "setlen", "store"):
                v = v.a[0]
            else:
                break
        return v

    # ---- conditions moved to the callers
    def lifted(self):
        todo = [(k, x) for k, l in self.lift.items() for x in l]
        for k, (g, goal, src, kind, what) in todo:
            ps = params(self.prog.bodies[k])
            cs = [c for c in self.calls if c[1].a[0] == k]
            for caller, e, facts, cx in cs:
                inv, self.treep, self.queue_ok, self.consts, self.E, self.n = cx
                m = dict(zip(ps, e.a[1]))
                for p, v in zip(ps, e.a[4]):
                    if v is not None and p.op == "param" and v.op != "param":
                        m[deref(p)] = v
                for nm, t in e.a[3]:
                    m[raw("cparam", nm)] = t
                gg = [(subst(c, m), v) for c, v in g]
                if any(c.op == "bool" and c.a[0] is not v for c, v in gg):
                    continue
                x = subst(goal, m)
                fs = facts + inv + [(goal2, True) for g2, goal2, *_ in self.lift.get(caller, []) if all((c, v) in facts or c.op == "bool" and c.a[0] is v for c, v in g2)]
                fs = fs + self.structure([x], facts)
                self.k = caller
                if x is TRUE or any(c is x and v for c, v in fs) or alg.contradict(fs) or x.op in ("lt", "le") and alg.implies(fs, x):
                    self.put(e, kind + " in " + short(k), OK_)
                elif x is FALSE and not any(imprecise(c) for c, v in facts):
                    self.put(e, kind + " in " + short(k), BAD, what + " in the function called")
                else:
                    self.put(e, kind + " in " + short(k), UNK, what + " in the function called: %s does not follow" % show(x, 6))
            if not cs:
                self.k = k
                self.put(src, kind, UNK, what + ": no caller found")


def truth_at(f, c, cv, p, pv):
    x = subst(f, {c: I(cv), p: I(pv)})
    return True if x is TRUE else False if x is FALSE else None


def leaves(t):
    """the atoms of an arithmetic or logical term"""
    if t.op in ("add", "sub", "mul", "rem", "lt", "le", "is", "not", "eq", "and", "or"):
        return [y for x in t.a if isinstance(x, T) for y in leaves(x)]
    return [t]
