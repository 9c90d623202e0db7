"""No panic and no endless loop for valid input.

Every path of the functions that ends in a panic, and every operation that may panic (an unsigned subtraction, a
logarithm), gives an obligation: its path condition must be contradictory under the facts on the path and the invariants
of the structures.  A path that an assignment of the free inputs (sizes, counts) satisfies is a violation.

Every loop must be counted, drain a queue, descend in the tree, or move a counter on each round; every recursion is on a
strict part of the structure.  A round that changes nothing is a violation."""
from core import *
from unsafe import Unsafe, leaves, short
import entry as entry_
import build as build_

TRIES = (0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 64, 100, 1000)
HUGE = 1 << 62         # more elements than memory has
MAX = (1 << 64) - 1
SIZED = ("may a shift", "may an addition", "may a multiplication")


class Panics(Unsafe):
    RULE = "panic"

    def run(self):
        stop = tuple(sorted(set(self.rec) | set(self.parts)))
        self.pending = []
        self.keep = {}         # recursive search function -> containers it keeps non-empty
        self.need = []         # (function, container parameter, site): a non-empty container is needed
        for k in self.roots():
            if k in self.parts:
                continue       # decided with the partition
            self.obs.note("functions")
            try:
                eng, outs = summarise(self.pkg, self.cfg, k, stop_at=[x for x in stop if x != k], arith=True)
            except Imprecise as e:
                self.obs.add(self.RULE, k, self.prog.bodies[k]["span"], UNK, "not analysed: %s" % e)
                self.partial(k, getattr(e, "partial", ()))
                continue
            self.function(k, eng, outs)
        self.settle()
        self.lifted()
        sites = set()
        for (k, sp, kind), (st, d) in sorted(self.done.items(), key=lambda x: str(x[0])):
            self.obs.add("progress" if kind.startswith("loop") else self.RULE, k, sp, st, d)
            sites.add(sp)
        self.obs.note("operations that may panic, and loops (sites)", len(sites))

    def partial(self, k, evs):
        """the operations before the construct that is not understood"""
        if not evs:
            return
        Unsafe.function(self, k, None, [])
        self.phis, self.posts, self.seenloops, self.derived, self.free = {}, {}, set(), set(), None
        for before, e in evs:
            if not any(x.k in ("loop", "reccall", "opaque") for x in before):
                self.maypanic(e, [(x.a[0], x.a[1]) for x in before if x.k == "guard"])

    # ---- collecting
    def function(self, k, eng, outs):
        self.outs = outs
        self.phis, self.posts = {}, {}
        self.seenloops = set()
        self.derived = set()   # facts that follow from the program: no choice of inputs can contradict them
        self.free = None
        for s, v in outs:
            for e in allevents(s.events()):
                if e.k == "loop":
                    for p in e.a[0].phis:
                        self.phis[p.sym] = p
                elif e.k == "reccall":
                    self.posts[e.a[2]] = e
        self.used = set()
        self.calls0 = len(self.calls)
        super().function(k, eng, outs)
        # the containers of a recursive search: non-empty at the end if they were at the start
        ci = self.cparam(k)
        if ci is not None:
            cs = self.shapes_of(k, ci)
            for s, v in outs:
                if isinstance(v, Panic):
                    continue
                c = self.eng.read(s, *place_of(self.ps[ci]))
                ok = self.nonempty(fld(c, None, cs.h), [(g, w) for g, w in guards(s.events())], ())
                self.put2(k, self.prog.bodies[k]["span"], "container kept", OK_ if ok else UNK, "" if ok else "the container may be empty at the end: %s" % show(c, 5))
                if not ok:
                    self.keep[k] = False

    def shapes_of(self, k, i):
        s = self.pts(k, i)
        for cs in sorted(self.shapes, key=lambda c: -len(c.adt)):
            if cs.adt.split("::")[-1] + "<" in s:
                return cs

    def cparam(self, k):
        """the container of a recursive search function"""
        if k not in self.rec or k in self.builders:
            return None
        for i in range(self.prog.bodies[k]["argc"]):
            if "&mut" in self.pts(k, i).replace("&'{erased} mut", "&mut") and self.shapes_of(k, i) is not None:
                return i

    def put2(self, k, sp, kind, st, detail=""):
        sv, self.k = self.k, k
        e = type("E", (), {"sp": sp})
        self.put(e, kind, st, detail)
        self.k = sv

    def walk(self, evs, facts, counters):
        facts = list(facts)
        self.walkall(evs, facts, counters)
        return facts

    def walkall(self, evs, facts, counters):
        for e in evs:
            if e.k == "guard":
                facts.append((e.a[0], e.a[1]))
            elif e.k == "loop":
                rec = e.a[0]
                lf, cn = [], dict(counters)
                iv = (rec.guard or {}).get("iv")
                for p in rec.phis:
                    if p.nexts and all(num(sub(n, p.sym)) is not None for n in p.nexts):
                        ds = [num(sub(n, p.sym)) for n in p.nexts]
                        cn[p.sym] = iv is not None and p.sym is iv.sym
                        if all(d >= 0 for d in ds):
                            lf.append((le(p.init, p.sym), True))
                        if all(d <= 0 for d in ds):
                            lf.append((le(p.sym, p.init), True))
                lf.extend(self.lengths(rec))
                if rec.par:
                    t = raw("threadindex")
                    lf.append((raw("is", t, 1), True))
                    lf.append((lt(fld(t, 1, 0), alg.THREADS), True))
                self.derived.update(lf)
                if (self.k, rec.id) not in self.seenloops:
                    self.seenloops.add((self.k, rec.id))
                    self.loop(e, rec, facts)
                    for bp in rec.backs:
                        self.walk(bp.events, facts + lf, cn)
                facts.extend(lf)
            elif e.k == "maypanic":
                self.maypanic(e, facts)
            elif e.k == "alloc":
                self.alloc(e, facts)
            elif e.k == "reccall":
                self.calls.append((self.k, e, list(facts), (list(self.inv), self.treep, self.queue_ok, self.consts, self.E, getattr(self, "n", None))))
                self.containercall(e, facts)
                self.recursion(e, facts)
                for ci, x in enumerate(e.a[1]):
                    if e.a[0] in self.builders and "Vec<Node" in self.pts(e.a[0], ci):
                        facts.append((lt(ZERO, len_(raw("post", e.a[2], ci))), True))

    def lengths(self, rec):
        """the length of a vector that grows with a counter"""
        res, grow = [], {}
        for p in rec.phis:
            if not p.nexts:
                continue
            l = len_(p.sym)
            ds = [num(sub(self.flen(n, p.sym), l)) for n in p.nexts]
            if None not in ds and not any(x.op == "havoc" for x in walk(len_(p.init))):
                if not any(ds):
                    res.append((eq(l, len_(p.init)), True))
                else:
                    grow[p] = ds
        for q in rec.phis:
            ds = [num(sub(n, q.sym)) for n in q.nexts]
            if ds and None not in ds:
                for p, e in grow.items():
                    if e == ds:
                        res.append((eq(sub(len_(p.sym), len_(p.init)), sub(q.sym, q.init)), True))
        return res

    def flen(self, t, stop, n=0):
        """the length of a value, through inner loops that keep it"""
        l = len_(t)
        if l.op == "len" and l.a[0] is not stop and l.a[0] in self.phis and n < 6:
            p = self.phis[l.a[0]]
            if all(self.flen(x, p.sym, n + 1) is l for x in p.nexts):
                return self.flen(p.init, stop, n + 1)
        return l

    def containercall(self, e, facts):
        ci = self.cparam(e.a[0])
        if ci is None or e.a[4][ci] is None:
            return
        cs = self.shapes_of(e.a[0], ci)
        c = e.a[4][ci]
        h = fld(c, None, cs.h)
        ok = self.nonempty(h, facts, ())
        self.put(e, "container given", OK_ if ok else UNK, "" if ok else "the container may be empty at the call: %s" % show(h, 5))

    # ---- non-empty containers
    def nonempty(self, h, facts, seen):
        n = len_(h)
        if n.op == "int" and n.a[0] == 0 and alg.contradict(facts + self.inv + self.structure([c for c, v in facts], facts)):
            return True
        if num(n) is not None:
            return num(n) >= 1
        if n.op == "add" and num(n.a[1]) is not None and num(n.a[1]) >= 1:
            return True
        if n.op != "len":
            return False
        y = n.a[0]
        while y.op in ("sorted", "sortedby", "hvec"):
            y = y.a[0]
        if y in seen:
            return True
        fs = facts + self.inv
        fs = fs + self.structure([n] + [c for c, v in facts], facts)
        if alg.implies(fs, lt(ZERO, n)) or alg.contradict(fs):
            return True
        # the heap of a container
        pr, x = [], y
        while x.op in ("fld", "idx") and x not in self.phis:
            pr.append(pf(x.a[1], x.a[2]) if x.op == "fld" else pi(x.a[1]))
            x = x.a[0]
        pr.reverse()
        if x in self.phis:
            p = self.phis[x]
            return all(self.nonempty(projs(z, pr), facts if z is not p.init else facts, seen + (y,)) for z in [p.init] + list(p.nexts))
        if x.op == "post" and x.a[0] in self.posts:
            return self.cparam(self.posts[x.a[0]].a[0]) == x.a[1]      # the function keeps a non-empty container non-empty: required at each call
        if x.op == "deref" and x.a[0] in self.ps:
            return self.cparam(self.k) == self.ps.index(x.a[0])
        return False

    # ---- panics
    def finish(self, s, v, facts):
        if not isinstance(v, Panic):
            return
        e = ([x for x in s.events() if x.k not in ("mark",)] or [None])[-1]
        for c, w in facts:
            if c.op == "eq" and w and c.a[1] is ZERO and c.a[0].op == "cparam" or c.op == "eq" and w and c.a[0] is ZERO and c.a[1].op == "cparam":
                return self.put(e, "panic", OK_)         # no dimensions
        for c, w in facts:
            x = None
            if c.op == "eq" and w:
                x = c.a[0] if c.a[1] is ZERO else c.a[1] if c.a[0] is ZERO else None
            if x is not None and x.op == "len" and self.nonempty(x.a[0], [f for f in facts if f[0] is not c], ()):
                return self.put(e, "panic", OK_)
        self.decide_panic(e, "panic", None, facts, "the panic (%s) may be reached" % v.msg)

    def maypanic(self, e, facts):
        what = {"an unsigned subtraction": "an unsigned subtraction may be negative", "ilog2": "the logarithm of zero may be taken"}.get(e.a[0], "%s may panic" % e.a[0])
        self.decide_panic(e, "may " + e.a[0], e.a[1], facts, what)

    def alloc(self, e, facts):
        """A capacity asked for by a query or constructor is in proportion to the data and queries, whatever numbers are given."""
        b = self.prog.bodies[self.k]
        if self.private or self.treep is None and "Tree<" not in b["types"][b["locals"][0]]["s"]:
            return
        ints = [p for i, p in enumerate(self.ps) if ptype(b, i)["k"] == "int"]
        if not has(e.a[0], lambda x: x in ints):
            return self.put(e, "capacity", OK_)
        goal = lt(e.a[0], I(HUGE))
        w = self.satisfied(facts + self.inv + [(goal, False)], goal, huge=ints)
        self.put(e, "capacity", BAD if w else OK_, "more space is asked for than there is with %s" % w if w else "")

    def decide_panic(self, e, kind, goal, facts, what):
        fs = facts + self.inv + ([(goal, False)] if goal is not None else [])
        ts = [c for c, v in fs]
        fs2 = fs + self.structure(ts, facts)
        for c in ts:
            for x in walk(c):
                if x.op == "len" and (x.a[0].op in ("fld", "phi", "post")) and self.nonempty(x.a[0], facts, ()):
                    fs2.append((lt(ZERO, x), True))
        if alg.contradict(fs2):
            return self.put(e, kind, OK_)
        if goal is not None and alg.implies(fs2[:len(fs2)], goal):
            return self.put(e, kind, OK_)
        if goal is not None and kind in SIZED[1:] and alg.implies(fs2 + [(lt(len_(deref(p)), I(1 << 48)), True) for i, p in enumerate(self.ps) if self.slicelen(i)], goal):
            return self.put(e, kind, OK_)
        if goal is not None and self.private and kind not in SIZED[1:] and self.ps and all(ptype(self.prog.bodies[self.k], j)["k"] == "int" for j in range(len(self.ps))):
            # a function of sizes: which sizes reach it is seen at its calls
            self.pending.append((self.k, e, list(facts), goal, kind, what))
            return
        if goal is not None and self.private and kind in SIZED:
            # a function the public ones pass their numbers to
            fr = set(p for i, p in enumerate(self.ps) if ptype(self.prog.bodies[self.k], i)["k"] == "int")
            if all(x.op in ("int", "add", "sub", "lt", "le", "mul") or x in fr for x in walk(goal)):
                rest = [(c, v) for c, v in facts if (c, v) not in self.derived and not self.always(c, v)]
                self.pending.append((self.k, e, rest, goal, "%s %s" % (kind, show(goal, 4)), what))
                return
        if kind in SIZED[1:]:
            w = self.satisfied(fs, goal, huge=[p for i, p in enumerate(self.ps) if ptype(self.prog.bodies[self.k], i)["k"] == "int"])
            return self.put(e, kind, BAD if w else OK_, what + (" with %s" % w if w else ""))
        w = self.satisfied(fs, goal)
        self.put(e, kind, BAD if w else UNK, what + (" with %s" % w if w else "" if goal is None else ": %s does not follow" % show(goal, 6)))

    def slicelen(self, i):
        b = self.prog.bodies[self.k]
        t = ptype(b, i)
        return t["k"] == "ref" and b["types"][t["to"]]["k"] == "slice"

    def always(self, c, v):
        """the lengths of the parts of a partition, the bounds of a loop that has ended"""
        if c.op == "eq" and v and all(x.op != "callret" or self.posts[x.a[0]].a[0] in self.parts for x in walk(c) if x.op == "callret" and x.a[0] in self.posts) \
                and has(c, lambda x: x.op == "callret") and c.a[0].op in ("len", "add") and c.a[1].op in ("len", "add"):
            return True
        return c.op in ("lt", "le", "eq") and any(x in self.phis for x in c.a) and not has(c, lambda x: x.op in ("param", "sym", "callret")) or \
            c.op == "lt" and not v and c.a[0] in self.phis

    # ---- recursion
    def slicep(self, k):
        """the slice of points of a function"""
        for i in range(self.prog.bodies[k]["argc"]):
            b = self.prog.bodies[k]
            t = ptype(b, i)
            if t["k"] == "ref" and b["types"][t["to"]]["k"] == "slice":
                return i

    def recursion(self, e, facts):
        k, c = self.k, e.a[0]
        sc = self.prog.sccs()
        if c in self.parts:
            i = self.slicep(c)
            if i is None:
                return
            cut = len_(deref(e.a[1][i]) if e.a[4][i] is None else e.a[4][i])
            r = raw("callret", e.a[2])
            self.cuts = getattr(self, "cuts", {})
            ls = [len_(deref(fld(r, None, j))) for j in (0, 2)]
            goal = lt(ZERO, cut)
            facts0 = list(facts)
            facts.append((eq(add(add(ls[0], ls[1]), ONE), cut), True))      # holds after the call
            fs = facts0 + self.inv + [(le(ZERO, q), True) for i, q in enumerate(self.ps) if ptype(self.prog.bodies[k], i)["k"] == "int"]
            if alg.implies(fs, goal) or alg.contradict(fs) or alg.contradict(fs + [(eq(cut, ZERO), True)]):
                return self.put(e, "empty", OK_)
            # empty slices may reach the function
            self.pending.append((k, e, facts0, goal, "empty", "the partition panics on an empty slice"))
            return
        if not sc.get(c) or sc.get(c) != sc.get(k):
            return
        ps = self.ps
        pre = [y if y is not None else x for x, y in zip(e.a[1], e.a[4])]
        own = [p if ptype(self.prog.bodies[k], i)["k"] not in ("ref",) else deref(p) for i, p in enumerate(ps)]
        if c == k and all(x is p or y is q for x, p, y, q in zip(e.a[1], ps, pre, own)) and not any(has(g, lambda t: t.op in ("havoc", "phi", "cell")) for g, v in facts) \
                and not self.shared(k):
            return self.put(e, "loop recursion", BAD, "the function calls itself with the same arguments")
        i = self.slicep(c)
        if k in self.builders and i is not None and i < len(ps):
            goal = lt(len_(pre[i]), len_(deref(ps[self.slicep(k)])))
        elif self.cparam(k) is None and all(ptype(self.prog.bodies[k], j)["k"] == "int" for j in range(len(ps))):
            for j, p in enumerate(ps):
                if alg.implies(facts + self.bounds(lt(pre[j], p)) + [(le(ZERO, q), True) for q in ps], lt(pre[j], p)):
                    return self.put(e, "loop recursion", OK_)
            goal = lt(pre[0], ps[0])
            self.pending.append((k, e, list(facts), goal, "loop recursion", "the recursion may not end"))
            return
        else:
            ok = self.descends(k, c, e, pre)
            return self.put(e, "loop recursion", OK_ if ok else UNK, "" if ok else "whether the recursion ends is not known")
        if alg.implies(facts + self.inv, goal) or alg.contradict(facts + self.inv):
            return self.put(e, "loop recursion", OK_)
        self.put(e, "loop recursion", UNK, "the recursion is not known to be on fewer points: %s" % show(goal, 5))

    def shared(self, k):
        return any("Mutex" in self.pts(k, i) or "RwLock" in self.pts(k, i) or "Cell" in self.pts(k, i) or "Atomic" in self.pts(k, i) for i in range(len(self.ps)))

    def bounds(self, g):
        res = []
        for x in walk(g):
            if x.op == "satsub":
                res += [(le(x, x.a[0]), True), (le(ZERO, x), True)]
            elif x.op == "div" and x.a[1].op == "int" and x.a[1].a[0] > 0:
                res += [(le(mul(x.a[1], x), x.a[0]), True), (le(ZERO, x), True)]
        return res

    def descends(self, k, c, e, pre):
        """a search goes on with a node below the current one or taken from the queue"""
        R = self.R
        b = self.prog.bodies[c]
        for i, x in enumerate(pre):
            ts = b["types"][ptype(b, i)["to"]] if ptype(b, i)["k"] == "ref" else ptype(b, i)
            if ts["k"] == "adt" and ts.get("path") == R.node_adt:
                # nodes[link]
                if x.op == "idx" and (self.link(x.a[1]) or self.queued(x.a[1]) or x.a[1].op == "deref" and x.a[1].a[0] in self.ps):
                    return True
            if ts["k"] == "int":
                if self.link(x) or self.queued(x):
                    return True
        return False

    def settle(self):
        """conditions on sizes in recursive functions: violated by sizes that reach the function?"""
        for k, e, facts, goal, kind, what in self.pending:
            self.k, self.ps = k, params(self.prog.bodies[k])
            self.private, self.treep = True, None
            fr = set(p for i, p in enumerate(self.ps) if ptype(self.prog.bodies[k], i)["k"] == "int")
            i = self.slicep(k)
            if i is not None:
                fr.add(len_(deref(self.ps[i])))
            big = kind.startswith(SIZED[1:])
            w = self.satisfied(facts + [(goal, False)], goal, fr, huge=[x for x in fr if x.op != "len"] if big else ())
            st, d = OK_ if big else UNK, what + ": %s does not follow" % show(goal, 5)
            if w:
                for caller, c, cf, cx in self.calls:
                    if c.a[0] != k or (i is None or kind.startswith(SIZED)) and self.prog.sccs().get(caller) and self.prog.sccs().get(caller) == self.prog.sccs().get(k):
                        continue
                    pre = [y if y is not None else x for x, y in zip(c.a[1], c.a[4])]
                    m = {}
                    for j, p in enumerate(self.ps):
                        m[p] = c.a[1][j]
                    if i is not None:
                        m[len_(deref(self.ps[i]))] = len_(pre[i])
                    if any(cp in self.flags and isinstance(tv, bool) and tv != self.flags[cp] for cp, tv in self.cenv_of(c).items()):
                        continue
                    hit = [(eq(m[a], I(x)), True) for a, x in self.last.items() if a in m]
                    if not alg.contradict(cf + cx[0] + hit) and all(f[0].op != "bool" or f[0] is TRUE for f in hit):
                        st, d = BAD, what + " (%s, called at %s)" % (w, c.sp)
                        break
            self.put(e, kind, st, d)

    def cenv_of(self, c):
        """the constant parameters of a call"""
        return {raw("cparam", x): v for x, v in c.a[3]}

    # ---- satisfiable by free inputs
    def inputs(self):
        """free input quantities of a public function"""
        if self.free is None:
            self.free = set()
            if not self.private:
                for i, p in enumerate(self.ps):
                    ty = ptype(self.prog.bodies[self.k], i)
                    if ty["k"] == "int":
                        self.free.add(p)
                    elif ty["k"] == "ref" and self.prog.bodies[self.k]["types"][ty["to"]]["k"] == "slice":
                        self.free.add(len_(deref(p)))
                    elif ty["k"] == "adt" and ty.get("path", "").endswith("Option"):
                        self.free.add(fld(p, 1, 0))
                if self.treep is not None:
                    self.free.add(self.n)
                    self.free.add(len_(fld(deref(self.treep), None, self.R.data)))
        return self.free

    def satisfied(self, fs, goal, fr=None, huge=()):
        if fr is None:
            if self.private:
                return None
            fr = self.inputs()
        rel, atoms, other = [], set(), 0
        self.flags = {}
        for c, v in fs:
            if (c, v) in self.derived or (c, v) in self.inv and not any(x in fr for x in walk(c)):
                continue
            k = self.kind(c, v, fr)
            if k is None:
                return None
            if isinstance(k, tuple):
                k, c = k
            if k == "free":
                rel.append((c, v))
                atoms |= set(x for x in walk(c) if x in fr)
            elif k == "data":
                other += 1
        if other > 1 or len(atoms) > 4:
            return None
        atoms = sorted(atoms, key=lambda t: t.id)

        def go(i, asg):
            if i == len(atoms):
                return asg if all(ev(c, asg, fr) is v for c, v in rel) else None
            for x in TRIES + (HUGE, MAX) if atoms[i] in huge else TRIES:
                r = go(i + 1, {**asg, atoms[i]: x})
                if r:
                    return r
            return None
        r = go(0, {})
        if r is None or (not atoms and any(ev(c, {}, fr) is not v for c, v in rel)):
            return None
        self.last = r
        return ", ".join("%s = %d" % (show(a, 3), x) for a, x in r.items()) or "any input"

    def kind(self, c, v, fr):
        """free: over input quantities; ok: holds for valid data; data: a condition on one component; None: unknown"""
        if ev(c, {a: 1 for a in fr}, fr) is not None:
            return "free"
        if c.op == "forall" and v and not imprecise(c):
            return "ok"
        if c.op in ("isnan", "isinf") and not v:
            return "ok"
        if c.op in ("isnan", "isinf") and v and not has(c, lambda x: x.op in ("post", "callret", "havoc")):
            return "data"
        if c.op == "or" and v and not has(c, lambda x: x.op in ("post", "callret", "havoc")) and all(x.op in ("isnan", "isinf") for x in disjuncts(c)) \
                and any(self.rawinput(x.a[0]) for x in disjuncts(c)):
            return "data"
        if c.op == "lt" and any(x.op == "phi" for x in walk(c)):
            # entering or leaving a counted loop
            p = c.a[0]
            if p in self.phis and num(self.phis[p].init) is not None:
                return "ok" if not v else self.entered(c, p, fr)
        if c.op == "is" and c.a[0].op in ("fld", "param", "sym") and not has(c, lambda x: x.op in ("post", "callret", "phi")) and (c.a[0] in self.ps or c.a[0].a[0] in self.ps or self.treep is not None and c.a[0].a[0] is deref(self.treep)):
            return "ok"
        if c.op == "bool":
            return "ok"
        if c.op == "eq" and not v and c.a[0].op == "cparam" and c.a[1] is ZERO:
            return "ok"
        if c.op == "cparam":
            self.flags[c] = v
            return "ok"
        if c.op == "is" and c.a[0].op == "threadindex" and v:
            return "ok"
        return None

    def rawinput(self, x):
        """a component of an argument that is not known to be a number"""
        while x.op in ("fld", "idx", "deref"):
            if x.op == "fld" and x.a[1] is not None:
                return False
            x = x.a[0]
        return x in self.ps and "NotNan" not in self.pts(self.k, self.ps.index(x)) and "self" not in str(x.a[0])

    def entered(self, c, p, fr):
        c = subst(c, {p: self.phis[p].init})
        if any(x.op == "cparam" for x in walk(c)):      # at least one dimension
            c = subst(c, {x: ONE for x in walk(c) if x.op == "cparam"})
        if ev(c, {a: 1 for a in fr}, fr) is None:
            return None
        return "free", c

    # ---- loops
    def loop(self, e, rec, facts):
        if rec.par or rec.guard is not None or not rec.backs:
            return self.put(e, "loop", OK_)
        if rec.kind not in ("mir",) and not rec.kind.startswith("mir"):
            return self.put(e, "loop", OK_)     # an iterator over a finite sequence
        mono = {}
        for p in rec.phis:
            ds = [num(sub(n, p.sym)) for n in p.nexts]
            if None not in ds and (all(d >= 0 for d in ds) or all(d <= 0 for d in ds)):
                mono[p.sym] = ds
        for i, bp in enumerate(rec.backs):
            st, d = self.round(rec, i, bp, mono)
            self.put(e, "loop", st, d)

    def round(self, rec, i, bp, mono):
        evs = bp.events
        if any(ds[i] for ds in mono.values()):
            return OK_, ""
        for p in rec.phis:
            n = p.nexts[i]
            if self.descent(p.sym, n):
                return OK_, ""
        pops = [x for x in allevents(evs) if x.k in ("pop", "hpop")]
        pushes = [x for x in allevents(evs) if x.k in ("push", "hpush")]
        if pops:
            if any(x.k == "reccall" for x in evs) or not [x for x in pushes if x.k == "push"]:
                return OK_, ""
        if any(x.k in ("opaque", "reccall") for x in allevents(evs)):
            return UNK, "whether the loop ends is not known"
        for p in rec.phis:
            n = p.nexts[i]
            if n is not p.sym:
                return UNK, "whether the loop ends is not known: %s becomes %s" % (show(p.sym), show(n, 4))
        if any(imprecise(c) or has(c, lambda x: x.op == "havoc") for c, v in [(x.a[0], 0) for x in evs if x.k == "guard"]):
            return UNK, "whether the loop ends is not known"
        if any(x.k in ("w", "lock", "cellget", "loop") for x in evs):
            return UNK, "whether the loop ends is not known"
        return BAD, "a round of the loop changes nothing: it is repeated for ever"

    def descent(self, s, n):
        """n is a child of s"""
        R = self.R
        t = n
        if t.op == "ref":
            t = deref(t)
        return t.op == "idx" and has(t.a[1], lambda x: x.op == "fld" and x.a[1] == R.stem and x.a[2] in (R.s_left, R.s_right) and has(x.a[0], lambda y: y is s))


def disjuncts(c):
    return disjuncts(c.a[0]) + disjuncts(c.a[1]) if c.op == "or" else [c]


def projs(v, pr):
    for y in pr:
        v = project(v, y)
    return v


def ev(t, asg, fr):
    """value of an arithmetic or logical term under an assignment of the inputs; None if it has other atoms"""
    if t in asg:
        return asg[t]
    o = t.op
    if o == "int":
        return t.a[0]
    if o == "bool":
        return t.a[0]
    if o in ("add", "mul", "div", "rem", "min", "max", "pow", "satsub", "lt", "le", "eq", "and", "or"):
        a, b = ev(t.a[0], asg, fr), ev(t.a[1], asg, fr)
        if o == "and" and (a is False or b is False):
            return False
        if o == "or" and (a is True or b is True):
            return True
        if a is None or b is None:
            return None
        try:
            return {"add": lambda: a + b, "mul": lambda: a * b, "div": lambda: a // b, "rem": lambda: a % b, "min": lambda: min(a, b), "max": lambda: max(a, b),
                    "pow": lambda: a ** b if b < 64 else None, "satsub": lambda: max(0, a - b), "lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b,
                    "and": lambda: a and b, "or": lambda: a or b}[o]()
        except ZeroDivisionError:
            return None
    if o == "neg":
        a = ev(t.a[0], asg, fr)
        return None if a is None else -a
    if o == "len":
        return None
    if o == "not":
        a = ev(t.a[0], asg, fr)
        return None if a is None else not a
    if o == "ilog2":
        a = ev(t.a[0], asg, fr)
        return None if a is None or a <= 0 else a.bit_length() - 1
    if o == "ite":
        c = ev(t.a[0], asg, fr)
        return None if c is None else ev(t.a[1] if c else t.a[2], asg, fr)
    if t.op == "cparam":
        return None
    return None
