"""Tree construction: every node's box contains its points and the parent's dividing point, the
points are partitioned, the links name the right nodes, leaves hold at most `leafsize` points."""
from core import *
from valid import Finite
import alg


class Fail(Exception):
    def __init__(self, msg, ev=None, status=BAD):
        Exception.__init__(self, msg)
        self.msg, self.ev, self.status = msg, ev, status


def at(e):
    return e.sp if e is not None and isinstance(e.sp, str) else ""


def instantiate(t, m):
    """substitute parameters and read through the pointers that become known"""
    return norm(subst(t, m))


def norm(t, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    a = [norm(x, memo) if isinstance(x, T) else x for x in t.a]
    if t.op == "deref" and a[0].op == "ref":
        c, pr = place_of(a[0])
        r = norm(readenv({}, c, pr), memo)
    elif any(x is not y for x, y in zip(a, t.a)):
        r = rebuild(t.op, tuple(a))
    else:
        r = t
    memo[t] = r
    return r


def coord(P, c):
    """coordinate c of the point value P"""
    return idx(raw("deref", fld(P, None, 0)), c)


def point_slice(body, t):
    """&mut [Point]"""
    types = body["types"]
    if t["k"] != "ref":
        return False
    to = types[t["to"]]
    return to["k"] == "slice" and types[to["of"]]["k"] == "adt" and types[to["of"]]["path"].split("::")[-1] == "Point"


def is_partition(body):
    """fn(&mut [Point], ..) -> (&mut [Point], &mut Point, &mut [Point])"""
    types = body["types"]
    r = types[body["locals"][0]]
    if r["k"] != "tuple" or len(r["of"]) != 3:
        return False
    a = [types[x] for x in r["of"]]
    return point_slice(body, a[0]) and point_slice(body, a[2]) and a[1]["k"] == "ref" and any(point_slice(body, ptype(body, i)) for i in range(body["argc"]))


def partition_functions(prog):
    return [k for k, b in prog.bodies.items() if b.get("bbs") and b["kind"] in ("Fn", "AssocFn") and b["crate"] == "fnntw" and is_partition(b)]


def settled(evs):
    """the events that have happened for certain at the end of evs: not those of threads which may still be running"""
    res, skip, open_threads = [], [], []
    for e in evs:
        if e.k == "spawn":
            skip.append((e.a[0], len(res)))
        elif e.k == "spawnend" and skip:
            n, at_ = skip.pop()
            open_threads.append([n, res[at_:], len(skip)])
            if not skip:
                pass
            del res[at_:]
        elif e.k == "join" or e.k == "scopeend":
            for x in list(open_threads):
                if e.k == "scopeend" or x[0] == e.a[0]:
                    res += x[1]
                    open_threads.remove(x)
            res.append(e)
        else:
            res.append(e)
    return res


def nodes_param(body, i, R):
    """does parameter i give access to the vector of nodes?"""
    types = body["types"]
    ty = ptype(body, i)
    shared = False
    for _ in range(6):
        if ty["k"] == "ref":
            ty = types[ty["to"]]
        elif ty["k"] == "adt":
            n = ty["path"].split("::")[-1]
            ts = [a["t"] for a in ty["args"] if isinstance(a, dict) and a.get("t") is not None]
            if n == "Vec" and ts and types[ts[0]]["k"] == "adt" and types[ts[0]]["path"] == R.node_adt:
                return "shared" if shared else "own"
            if n in ("Arc", "Rc", "RwLock", "Mutex") and ts:
                shared = True
                ty = types[ts[0]]
            else:
                return None
        else:
            return None
    return None


class Worlds:
    """component c of an array term, by cases on which of the updated positions c is"""

    def __init__(self):
        self.indices = []

    def collect(self, t):
        while True:
            if t.op == "store":
                if t.a[1] not in self.indices:
                    self.indices.append(t.a[1])
                t = t.a[0]
            elif t.op == "ite":
                self.collect(t.a[1])
                t = t.a[2]
            else:
                return

    def all(self):
        n = len(self.indices)
        for mask in range(1 << n):
            yield {self.indices[i] for i in range(n) if mask >> i & 1}

    def comp(self, t, c, w):
        if t.op == "store":
            return t.a[2] if t.a[1] in w else self.comp(t.a[0], c, w)
        if t.op == "ite":
            return ite(t.a[0], self.comp(t.a[1], c, w), self.comp(t.a[2], c, w))
        return idx(t, c)


class Build:
    RULE = "build"

    def __init__(self, obs, pkg, cfg, roles, partitions):
        """partitions: functions whose partition contract has been established separately"""
        self.obs, self.pkg, self.cfg, self.R = obs, pkg, cfg, roles
        self.prog = program(pkg, cfg)
        self.parts = tuple(sorted(partitions))
        self.done = {}
        self.todo = []
        self.calls = []        # (caller instance, event, callee instance)
        self.nodefail = None

    # ---- instances ------------------------------------------------------------------------
    def want(self, key, cenv):
        k = (key, cenv)
        if k not in self.done:
            self.done[k] = None
            self.todo.append(k)
        return k

    def run(self, roots):
        for key, cenv in roots:
            self.want(key, cenv)
        while self.todo:
            k = self.todo.pop()
            self.instance(*k)
        self.links()

    def inst(self, key, cenv):
        return self.done.get((key, cenv))

    def nm(self, key, cenv):
        fl = ",".join(("%s" % c if v.a[0] else "!%s" % c) for c, v in cenv if v.op == "bool")
        return short(key) + ("<%s>" % fl if fl else "")

    def instance(self, key, cenv):
        obs = self.obs
        body = self.prog.bodies[key]
        nm = self.nm(key, cenv)
        info = {"key": key, "cenv": cenv, "nm": nm, "body": body, "box": None, "params": params(body), "paths": []}
        self.done[(key, cenv)] = info
        info["sub"] = [i for i in range(body["argc"]) if point_slice(body, ptype(body, i))]
        info["nodes"] = [i for i in range(body["argc"]) if nodes_param(body, i, self.R)]
        ce = {c: v for c, v in cenv if v.op == "bool"}
        try:
            eng, outs = summarise(self.pkg, self.cfg, key, stop_at=self.parts, cenv=ce, strides=True)
        except Imprecise as e:
            obs.add(self.RULE, nm, body["span"], UNK, "not analysed: %s" % e)
            return
        if len(info["sub"]) != 1 or len(info["nodes"]) != 1:
            obs.add(self.RULE, nm, body["span"], UNK, "recursion without one slice of points and one vector of nodes")
            return
        info["S"] = raw("deref", info["params"][info["sub"][0]])
        for s, v in outs:
            if isinstance(v, Panic):
                continue
            obs.note("construction paths")
            try:
                self.path(info, s, v)
            except Fail as f:
                obs.add(self.RULE, nm, at(f.ev), f.status, f.msg)

    # ---- one control path -----------------------------------------------------------------
    def path(self, info, s, v):
        R, obs, nm = self.R, self.obs, info["nm"]
        np = info["params"][info["nodes"][0]]
        evs = [e for e in s.events() if e.k != "mark"]
        pushes = [e for e in evs if e.k == "push" and self.isnode(e.a[1])]
        if len(pushes) != 1:
            for e in allevents(evs):
                if e.k == "push" and self.isnode(e.a[1]):
                    raise Fail("nodes are added in a loop", e, UNK)
            raise Fail("%d nodes are added instead of one for each call" % len(pushes), pushes[1] if len(pushes) > 1 else None, UNK if not pushes else BAD)
        pe = pushes[0]
        node, old = pe.a[1], pe.a[2]
        if unptr(pe.a[0]) is not unptr(np):
            raise Fail("the node is added to %s" % show(pe.a[0], 4), pe, UNK)
        for e in evs:
            if e.k in ("pop", "truncate", "clear", "setlen", "drainall") and unptr(e.a[0]) is unptr(np):
                raise Fail("nodes are removed during construction", e)
        # value returned: position of the added node
        if v is not len_(old):
            if alg.same(v, len_(old)) is not True:
                lk = [x for x in walk(v) if x.op == "locked"]
                raise Fail("the index returned, %s, is not the position of the node added, len(%s)%s" %
                           (show(v, 5), show(old, 4), ": the vector of nodes may change between reading its length and adding the node" if lk else ""), pe,
                           UNK if imprecise(v) and not lk else BAD)
        obs.add(self.RULE, nm, at(pe), OK_, "the index returned is the position of the node added")
        if old.op == "locked":
            ok = self.heldlock(evs, pe, old, v)
            if not ok:
                raise Fail("the vector of nodes is not locked while a node is added", pe)
            obs.add(self.RULE + "-sync", nm, at(pe), OK_, "length and insertion under one lock")
        facts = guards(evs)
        if node.a[1] == R.leaf:
            self.leafpath(info, evs, pe, node, facts)
        else:
            self.stempath(info, evs, pe, node, facts)

    def heldlock(self, evs, pe, old, v):
        held = None
        for e in evs:
            if e.k == "lock" and e.a[2] == old.a[0]:
                held = e
            elif e.k == "unlock" and held is not None and unptr(e.a[0]) is unptr(held.a[0]):
                held = None
            if e is pe:
                return held is not None and "read" not in str(held.a[1])
        return False

    def isnode(self, t):
        return t.op == "agg" and t.a[0] == self.R.node_adt

    def leafparam(self, info, facts, S):
        """(path is a leaf path?)  the parameter the number of points is compared with"""
        n = len_(S)
        for c, val in facts:
            if c.op in ("lt", "le", "eq") and n in c.a:
                o = c.a[0] if c.a[1] is n else c.a[1]
                if o.op == "sym":
                    return o
        # .. or the one parameter in what it is compared with
        for c, val in facts:
            if c.op in ("lt", "le", "eq") and any(z is n for z in walk(c)) and not imprecise(c):
                ps = {z for z in walk(c) if z.op == "sym" and z in info["params"] and z is not S and not any(z is y for y in walk(S))}
                if len(ps) == 1:
                    return ps.pop()
        return None

    def leafwitness(self, info, goal, facts):
        """numbers of points and leaf sizes for which the path is taken and the goal fails"""
        import panics
        n, L = len_(info["S"]), info["leafsize"]
        direct = all(L in c.a and n in c.a for c, v in facts if c.op in ("lt", "le", "eq") and any(z is L for z in walk(c)))
        if direct:
            return True
        for a in panics.TRIES:
            for b in panics.TRIES:
                q = {n: a, L: b}
                if panics.ev(goal, q, q) is False:
                    vs = [(panics.ev(c, q, q), v) for c, v in facts if any(z is n or z is L for z in walk(c))]
                    if vs and all(x is v for x, v in vs):
                        return True
        return False

    def leafpath(self, info, evs, pe, node, facts):
        R, obs, nm, S = self.R, self.obs, info["nm"], info["S"]
        pts = fld(node, R.leaf, R.l_points)
        if self.whole(pts, S):
            obs.add(self.RULE, nm, at(pe), OK_, "a leaf holds exactly the points it is given")
        else:
            raise Fail("the leaf holds %s instead of the points it is given" % show(pts, 5), pe, UNK if imprecise(pts) else BAD)
        L = info.get("leafsize") or self.leafparam(info, facts, S)
        if L is None:
            raise Fail("the size of a leaf is not compared with a limit", pe, UNK)
        info["leafsize"] = L
        info["leafcheck"] = info.get("leafcheck", []) + [(pe, le(len_(S), L), facts)]
        self.setbox(info, fld(node, R.leaf, R.l_lo), fld(node, R.leaf, R.l_hi), pe)

    def whole(self, pts, S):
        if pts is S:
            return True
        if pts.op == "mapseq":
            j, lo, hi, el = open_(pts)
            return lo is ZERO and hi is len_(S) and el is idx(S, j)
        return False

    def setbox(self, info, lo, hi, pe):
        info["box"] = info["box"] or []
        for b in info["box"]:
            if b[0] is lo and b[1] is hi:
                return
        info["box"].append((lo, hi, pe))

    def pieces(self, info, evs, S):
        """the partition of the subset on this path: (event, n, axis, ref left, median value terms, ref right)"""
        sp = info["params"][info["sub"][0]]
        for i, e in enumerate(evs):
            if e.k == "reccall" and e.a[0] in self.parts:
                b = self.prog.bodies[e.a[0]]
                si = [j for j in range(b["argc"]) if point_slice(b, ptype(b, j))]
                ai = axis_params(b)
                if len(si) != 1 or len(ai) != 1:
                    raise Fail("cannot tell the axis of the partition", e, UNK)
                if e.a[1][si[0]] is not sp:
                    raise Fail("a partition of %s instead of the points given" % show(e.a[1][si[0]], 5), e)
                n = raw("callret", e.a[2])
                f = lambda k: raw("fld", n, None, k)
                return e, e.a[1][ai[0]], f(0), raw("deref", f(1)), f(2)
            if e.k == "select":
                c, pr = place_of(sp)
                ref, m, cm, n = e.a
                if ref is not sp:
                    raise Fail("a partition of %s instead of the points given" % show(ref, 5), e, UNK)
                ax = cmp_axis(cm)
                if ax is None:
                    raise Fail("the partition is not ordered by one component: %s" % show(cm, 5), e, UNK)
                pr = list(pr)
                return e, ax, mkref(c, pr + [ps(ZERO, m)]), idx(raw("selected", S, m, cm), m), mkref(c, pr + [ps(add(m, ONE), n)])
        return None

    def stempath(self, info, evs, pe, node, facts):
        R, obs, nm, S = self.R, self.obs, info["nm"], info["S"]
        p = self.pieces(info, evs, S)
        if p is None:
            raise Fail("no partition of the points precedes the recursion", pe, UNK)
        e0, axis, left, med, right = p
        L = info.get("leafsize") or self.leafparam(info, facts, S)
        if L is not None:
            info["leafsize"] = L
            info["leafcheck"] = info.get("leafcheck", []) + [(pe, lt(L, len_(S)), facts)]
        # recursion: once on each side
        rec = [e for e in evs if e.k == "reccall" and e.a[0] not in self.parts and e.a[0] in self.prog.bodies
               and any(point_slice(self.prog.bodies[e.a[0]], ptype(self.prog.bodies[e.a[0]], i)) for i in range(self.prog.bodies[e.a[0]]["argc"]))]
        for e in allevents(evs):
            if e.k == "reccall" and e not in rec and e.a[0] == info["key"]:
                raise Fail("recursion inside a loop", e, UNK)
        sides = {}
        for e in rec:
            b = self.prog.bodies[e.a[0]]
            si = [i for i in range(b["argc"]) if point_slice(b, ptype(b, i))]
            ni = [i for i in range(b["argc"]) if nodes_param(b, i, R)]
            if len(si) != 1 or len(ni) != 1:
                raise Fail("recursion without one slice of points and one vector of nodes", e, UNK)
            a = e.a[1][si[0]]
            side = "left" if a is left else "right" if a is right else None
            if side is None:
                raise Fail("the recursion builds over %s, which is neither side of the partition" % show(a, 5), e, UNK if imprecise_other(a) else BAD)
            if side in sides:
                raise Fail("the %s side of the partition is built twice" % side, e)
            if unptr(e.a[1][ni[0]]) is not unptr(info["params"][info["nodes"][0]]):
                raise Fail("the recursion adds its nodes to another vector", e, UNK)
            if evs.index(e) > evs.index(pe):
                raise Fail("the node is added before its children", pe, UNK)
            sides[side] = e
            self.calls.append((info, e, self.want(e.a[0], self.cenv(e)), node, axis, med, side, pe))
        for side in ("left", "right"):
            if side not in sides:
                raise Fail("the points on the %s side of the partition are not built" % side, pe)
        obs.add(self.RULE, nm, at(pe), OK_, "both sides of the partition are built, once each")
        # the stem
        pt = fld(node, R.stem, R.s_point)
        if not (pt is med or pt.op == "idx" and med.op == "idx" and has(pt, lambda x: x is med.a[0]) and pt.a[1] is med.a[1]):
            raise Fail("the node's point is %s, not the dividing point of the partition" % show(pt, 5), pe, UNK if imprecise_other(pt) else BAD)
        obs.add(self.RULE, nm, at(pe), OK_, "the node holds the dividing point")
        sd = fld(node, R.stem, R.s_dim)
        if sd is not axis and alg.same(sd, axis) is not True:
            raise Fail("the node records dimension %s but is divided along %s" % (show(sd, 5), show(axis, 5)), pe, UNK if imprecise(sd, axis) else BAD)
        dd = [x for x in (sd,) if x.op == "rem" and x.a[1].op == "cparam"]
        D = [x for x in walk(sd) if x.op == "cparam"]
        if dd or D and alg.implies(facts, lt(sd, D[0])):
            obs.add(self.RULE, nm, at(pe), OK_, "the dividing dimension is below D and the one recorded")
        else:
            raise Fail("the dividing dimension %s is not known to be below D" % show(sd, 5), pe, UNK if not D and imprecise(sd) else UNK)
        for side, k in (("left", R.s_left), ("right", R.s_right)):
            lk = fld(node, R.stem, k)
            if lk is not raw("callret", sides[side].a[2]):
                raise Fail("the %s link is %s, not the index of the node built over the %s side" % (side, show(lk, 5), side), pe,
                           UNK if imprecise_other(lk) else BAD)
        obs.add(self.RULE, nm, at(pe), OK_, "the links are the indices of the nodes built over the two sides")
        # nothing is added between the children and this node that is not theirs: the vector only grows
        self.setbox(info, fld(node, R.stem, R.s_lo), fld(node, R.stem, R.s_hi), pe)

    @staticmethod
    def cenv(e):
        return tuple((c, v) for c, v in e.a[3] if isinstance(v, T) and v.op == "bool")

    # ---- boxes ----------------------------------------------------------------------------
    def links(self):
        obs, R = self.obs, self.R
        for info in self.done.values():
            if info is None or not info["box"]:
                continue
            if len(info["box"]) > 1:
                obs.add(self.RULE, info["nm"], at(info["box"][1][2]), UNK, "leaves and divided nodes get differently computed boxes")
        for c in self.calls:
            info, e, callee, node, axis, med, side, pe = c
            try:
                self.boxstep(*c)
                obs.note("box obligations")
            except Fail as f:
                obs.add(self.RULE, info["nm"], at(f.ev or e), f.status, f.msg)

    def argmap(self, callee, e):
        ci = self.done[callee]
        return {p: a for p, a in zip(ci["params"], e.a[1])}

    def boxstep(self, info, e, callee, node, axis, med, side, pe):
        R, obs = self.R, self.obs
        ci = self.done.get(callee)
        if ci is None or not ci["box"]:
            raise Fail("the boxes of the nodes built are not known", e, UNK)
        plo, phi = fld(node, R.stem, R.s_lo), fld(node, R.stem, R.s_hi)
        m = self.argmap(callee, e)
        for blo, bhi, bp in ci["box"]:
            clo, chi = instantiate(blo, m), instantiate(bhi, m)
            W = Worlds()
            for t in (plo, phi, clo, chi):
                W.collect(t)
            if axis not in W.indices:
                W.indices.append(axis)
            c0 = sym(("component", "usize"))
            p0 = sym("pointofside")
            for w in W.all():
                rep = axis if axis in w else (sorted(w, key=lambda x: x.id if hasattr(x, "id") else id(x))[0] if w else c0)
                # two different positions that are both the component
                lo, hi = W.comp(clo, rep, w), W.comp(chi, rep, w)
                pl, ph = W.comp(plo, rep, w), W.comp(phi, rep, w)
                K, M = coord(p0, rep), norm(coord(med, rep))
                facts = [(le(pl, K), True), (le(K, ph), True), (le(pl, M), True), (le(M, ph), True)]
                if axis in w:
                    facts.append((le(K, M) if side == "left" else le(M, K), True))
                # positions identified in this case
                mp = {x: rep for x in w if x is not rep}
                if mp:
                    lo, hi = subst(lo, mp), subst(hi, mp)
                    facts = [(subst(x, mp), y) for x, y in facts]
                for lab, x in (("a point of the %s side" % side, K), ("the dividing point", M)):
                    for which, goal, b in (("lower", le(lo, x), lo), ("upper", le(x, hi), hi)):
                        if self.covered(b, ci, e, x, which, lab, rep) or alg.implies(facts, goal, ints=False):
                            continue
                        raise Fail("the %s bound of the %s child, %s along %s, does not admit %s" %
                                   (which, side, show(b, 5), "the dividing dimension" if axis in w else "another dimension", lab), e,
                                   UNK if self.imprecise(lo, hi, pl, ph) else BAD)
        obs.add(self.RULE, info["nm"], at(e), OK_, "the %s child's box admits its points and the dividing point" % side)

    def imprecise(self, *ts):
        for t in ts:
            for x in walk(t):
                if x.op in ("havoc", "call", "undef", "constant", "constarg", "sub?"):
                    return True
        return False

    def covered(self, b, ci, e, x, which, lab, c):
        """bound computed over the child's own points: covers those points, not the dividing point"""
        if "dividing" in lab:
            return False
        bodyi = [i for i in ci["sub"]]
        S = raw("deref", e.a[1][bodyi[0]])
        return self.foldcovers(b, S, c, which) is True

    def foldcovers(self, b, S, c, which):
        """b = min (max) over all elements of S of component c (and anything else)"""
        op = "min" if which == "lower" else "max"
        if b.op == op:
            r = [self.foldcovers(x, S, c, which) for x in b.a]
            return True if True in r else (None if None in r else False)
        if b.op == "red":
            j, lo, hi, o, el, init = open_red(b)
            if o == op and lo is ZERO and (hi is len_(S)) and norm(el) is norm(coord(idx(S, j), c)):
                return True
            if imprecise(el):
                return None
            return False
        if imprecise(b):
            return None
        return False

    def rootbox(self, key, cenv, e, S=None):
        """the root's box covers all points"""
        obs = self.obs
        info = self.done.get((key, cenv))
        if info is None or not info.get("box"):
            obs.add(self.RULE, self.nm(key, cenv), at(e), UNK, "the root's box is not known")
            return
        m = self.argmap((key, cenv), e)
        S = info["S"]
        for lo, hi, pe in info["box"]:
            c = sym(("component", "usize"))
            for which, t in (("lower", lo), ("upper", hi)):
                b = idx(t, c)
                r = self.foldcovers(b, S, c, which)
                obs.add(self.RULE, info["nm"], at(pe), OK_ if r is True else BAD if r is False else UNK,
                        "the root's %s bound admits every point" % which if r is True else
                        "the root's %s bound is %s, which does not bound every point" % (which, show(b, 7)))

    def leafsizes(self, rootargs):
        """leaf exactly when at most `leafsize` points: needs to know which argument is leafsize"""
        for info in self.done.values():
            if info is None:
                continue
            for pe, goal, facts in info.get("leafcheck", []):
                ok = alg.implies(facts, goal)
                what = "holds at most leafsize points" if goal.op == "le" or not ok else "a node is divided only when it has more than leafsize points"
                isleaf = goal is le(len_(info["S"]), info["leafsize"])
                self.obs.add(self.RULE, info["nm"], at(pe), OK_ if ok else BAD if self.leafwitness(info, goal, facts) else UNK,
                             ("a leaf holds at most leafsize points" if isleaf else "only a set of more than leafsize points is divided") if ok else
                             ("a leaf may hold more than leafsize points" if isleaf else "a set of at most leafsize points is divided"))


def open_red(b):
    r = open_(b)
    return r


def unptr(t):
    """through clones of shared pointers and references to them"""
    while t.op == "ref" and len(t.a) == 1 and t.a[0].op == "D":
        t = t.a[0].a[0]
    return t


def imprecise_other(t):
    for x in walk(t):
        if x.op in ("havoc", "call", "undef", "constant", "constarg"):
            return True
    return False


def axis_params(b):
    return [i for i in range(b["argc"]) if ptype(b, i)["k"] == "int"]


def cmp_axis(cm):
    """cmp(key(e0), key(e1)) ascending by one component -> that component"""
    if cm.op == "cmpcases":
        return cases_axis(cm)
    if cm.op != "cmp":
        return None
    a, b = cm.a[0], cm.a[1]
    e0, e1 = raw("elem", 0), raw("elem", 1)
    if a.op != "idx" or b is not subst(a, {e0: e1}):
        return None
    if norm(a) is not norm(coord(e0, a.a[1])):
        return None
    return a.a[1]


def cases_axis(cm):
    """a comparator by cases that orders by one component (ties in any way) -> that component"""
    e0, e1 = raw("elem", 0), raw("elem", 1)
    axes = set()
    for x in walk(cm):
        if x.op == "idx" and norm(x) is norm(coord(e0, x.a[1])):
            axes.add(x.a[1])
    for ax in axes:
        k0 = [x for x in walk(cm) if x.op == "idx" and x.a[1] is ax and norm(x) is norm(coord(e0, ax))][0]
        k1 = subst(k0, {e0: e1})
        good = True
        for case in cm.a:
            v, gs = case.a[0], [(g.a[0], g.a[1]) for g in case.a[1:]]
            if v.op == "panic":
                continue
            for want, rel in ((0, (raw("lt", k0, k1), True)), (2, (raw("lt", k1, k0), True))):
                if v.op == "cmp" and v.a[0] is k0 and v.a[1] is k1 or v.op == "agg" and v.a[1] == want:
                    continue
                if alg.infeasible_split(alg.lincons(gs + [rel]), False):
                    continue
                good = False
        if good:
            return ax
    return None


# ---- constructors -------------------------------------------------------------------------------

def constructors(prog, R):
    """exported functions from a slice of coordinates to a tree"""
    res = []
    for k, b in prog.bodies.items():
        if not b.get("bbs") or b["kind"] not in ("Fn", "AssocFn") or not b.get("exported") or b["crate"] != "fnntw":
            continue
        r = b["types"][b["locals"][0]]
        if R.tree_adt not in r["s"] and not r["s"].split("<")[0].endswith("Tree") and "Tree<" not in r["s"]:
            continue
        if any(classify_param(b, i, R) == "queries" for i in range(b["argc"])):
            res.append(k)
    return res


class Construct:
    RULE = "construct"

    def __init__(self, obs, pkg, cfg, key, roles, builder, partitions):
        self.obs, self.pkg, self.cfg, self.key, self.R, self.b = obs, pkg, cfg, key, roles, builder
        self.prog = program(pkg, cfg)
        self.parts = tuple(sorted(partitions))
        self.roots = []

    def run(self):
        obs = self.obs
        body = self.prog.bodies[self.key]
        try:
            eng, outs = summarise(self.pkg, self.cfg, self.key, stop_at=self.parts, strides=True)
        except Imprecise as e:
            obs.add(self.RULE, self.key, body["span"], UNK, "not analysed: %s" % e)
            return
        ps = params(body)
        qi = [i for i in range(body["argc"]) if classify_param(body, i, self.R) == "queries"][0]
        self.inp = ps[qi]
        self.I = raw("deref", self.inp)
        self.ps, self.body = ps, body
        self.D = raw("cparam", [g[0] for g in body["generics"] if g[1] == "const"][0])
        okp = 0
        self.errs = set()
        for s, v in outs:
            if isinstance(v, Panic):
                self.panicpath(s, v)
                continue
            obs.note("constructor paths")
            t = self.tree(v)
            try:
                if t is None:
                    self.errpath(s, v)
                else:
                    okp += 1
                    self.okpath(s, t)
            except Fail as f:
                obs.add(self.RULE, self.key, at(f.ev), f.status, f.msg)
        if not okp:
            obs.add(self.RULE, self.key, body["span"], UNK, "no path returns a tree")

    def tree(self, v):
        while v.op == "agg" and v.a[0] != self.R.tree_adt:
            if v.a[0] in ("core::result::Result",) and v.a[1] == 0 and len(v.a) > 2:
                v = v.a[2]
            else:
                return None
        return v if v.op == "agg" else None

    def rootcall(self, evs):
        c = []
        for e in evs:
            if e.k == "reccall" and e.a[0] not in self.parts:
                b = self.prog.bodies.get(e.a[0])
                if b and any(point_slice(b, ptype(b, i)) for i in range(b["argc"])) and any(nodes_param(b, i, self.R) for i in range(b["argc"])):
                    c.append(e)
        return c

    def okpath(self, s, t):
        R, obs = self.R, self.obs
        evs = [e for e in s.events() if e.k != "mark"]
        rc = self.rootcall(evs)
        if len(rc) != 1:
            raise Fail("%d recursive constructions instead of one" % len(rc), rc[1] if len(rc) > 1 else None, UNK if not rc else BAD)
        e = rc[0]
        b = self.prog.bodies[e.a[0]]
        cenv = Build.cenv(e)
        self.roots.append((e.a[0], cenv, e))
        n = e.a[2]
        si = [i for i in range(b["argc"]) if point_slice(b, ptype(b, i))][0]
        ni = [i for i in range(b["argc"]) if nodes_param(b, i, R)][0]
        pre = e.a[4]
        facts = guards(evs)
        before = guards(evs[:evs.index(e)])
        # all points, each once
        S = pre[si]
        if S.op == "ref":
            S = norm(raw("deref", S))
        ok = False
        if S.op == "mapseq":
            j, lo, hi, el = open_(S)
            pt = fld(el, None, 0)
            ok = lo is ZERO and hi is len_(self.I) and pt is mkref(Dcell(self.inp), [pi(j)])
        if not ok:
            raise Fail("the tree is built over %s, not over every input point once" % show(S, 6), e, UNK if imprecise_other(S) else BAD)
        obs.add(self.RULE, self.key, at(e), OK_, "the tree is built over every input point, once each")
        # nodes start empty
        N = pre[ni]
        lim = 4
        while N.op == "ref" and lim:
            N = self.loadpre(evs, e, N)
            lim -= 1
        if N.op != "vnew":
            raise Fail("construction starts with nodes %s" % show(N, 5), e, UNK)
        final = raw("post", n, ni)
        # root
        root = fld(t, None, R.root)
        nodes = fld(t, None, R.nodes)
        last = idx(final, add(len_(final), I(-1)))
        byret = idx(final, raw("callret", n))
        if root is last and nodes is raw("vpopped", final) or root is byret and nodes is raw("vpopped", final):
            obs.add(self.RULE, self.key, at(e), OK_, "the root is the node added last and is taken from the end")
        elif root is last and nodes is final:
            obs.add(self.RULE, self.key, at(e), OK_, "the root is the node added last")
        else:
            # taking it may have failed (no node): infeasible, a construction adds a node
            if alg.implies(facts, lt(ZERO, len_(final)), val=False):
                return
            raise Fail("the root is %s with nodes %s instead of the node added last" % (show(root, 5), show(nodes, 5)), e,
                       UNK if imprecise_other(root) or imprecise_other(nodes) else BAD)
        for x in evs[evs.index(e) + 1:]:
            if x.k in ("w", "push", "truncate", "clear", "setlen", "sort", "select") and x.k != "w" and self.isnodes(x, final):
                raise Fail("the nodes change after construction", x, UNK)
        # fields
        if fld(t, None, R.input) is not self.inp:
            raise Fail("the tree keeps %s as its input" % show(fld(t, None, R.input), 4), e, UNK)
        st = fld(t, None, R.start)
        if st is not mkref(Dcell(self.inp), [pi(ZERO)]):
            raise Fail("positions are counted from %s instead of the first input point" % show(st, 5), e, UNK if imprecise_other(st) else BAD)
        obs.add(self.RULE, self.key, at(e), OK_, "positions are counted from the first input point")
        bx = fld(t, None, R.boxsize)
        if bx is not NONE:
            raise Fail("a new tree has the box %s" % show(bx, 5), e, UNK if imprecise_other(bx) else BAD)
        d = len_(fld(t, None, R.data))
        if d is not len_(raw("post", n, si)) and not alg.implies(facts, eq(d, len_(self.I))):
            raise Fail("the tree's list of points has %s elements" % show(d, 5), e, UNK if imprecise_other(d) else BAD)
        obs.add(self.RULE, self.key, at(e), OK_, "the tree's input, points and box are as given")
        # leafsize reaches the recursion
        self.leafarg(e, t)
        # arcs
        for x in allevents(evs):
            if x.k == "arcsole":
                bad = [y for y in allevents(evs) if y.k == "opaque" and any(z in str(y.a[0]) for z in ("forget", "thread::spawn", "rayon::spawn", "leak"))]
                obs.add("construct-sync", self.key, at(x), BAD if bad else OK_, "the nodes are shared with %s when they are unwrapped" % bad[0].a[0] if bad else
                        "every clone of the shared nodes is gone when they are unwrapped")
        # validated before
        self.validate(e, facts, evs, settled(evs[:evs.index(e)]))

    def isnodes(self, x, final):
        return any(isinstance(a, T) and a is final for a in x.a)

    def loadpre(self, evs, e, N):
        return norm(raw("deref", N))

    def leafarg(self, e, t):
        info = self.b.want(e.a[0], Build.cenv(e))
        self.leafroot = (e, info)

    def named(self, name, kind):
        for n, p in zip(range(self.body["argc"]), self.ps):
            if p.a[0] == (name, "usize") or p.a[0] == name:
                return p

    def checkleaf(self):
        if not hasattr(self, "leafroot"):
            return
        e, k = self.leafroot
        info = self.b.done.get(k)
        if not info or not info.get("leafsize"):
            self.obs.add(self.RULE, self.key, at(e), UNK, "the leaf size of the construction is not known")
            return
        i = info["params"].index(info["leafsize"])
        ints = [p for j, p in enumerate(self.ps) if ptype(self.body, j)["k"] == "int"]
        want = self.named("leafsize", "usize") or (ints[0] if ints else None)
        got = e.a[1][i]
        ok = got is want or alg.same(got, want) is True
        self.obs.add(self.RULE, self.key, at(e), OK_ if ok else (UNK if imprecise_other(got) else BAD),
                     "the recursion uses the leaf size given" if ok else "the recursion uses the leaf size %s" % show(got, 5))

    def panicpath(self, s, v):
        obs = self.obs
        evs = [e for e in s.events() if e.k != "mark"]
        rc = self.rootcall(evs)
        facts = guards(evs)
        extra = [(lt(ZERO, len_(raw("post", e.a[2], i))), True) for e in rc for i in range(self.prog.bodies[e.a[0]]["argc"])
                 if nodes_param(self.prog.bodies[e.a[0]], i, self.R)]
        if alg.contradict(facts + extra):
            obs.add(self.RULE + "-panic", self.key, "", OK_, "cannot happen: %s" % str(v)[:60])
            return
        if "assert:Remainder" in str(v) or "DivisionByZero" in str(v):
            return
        obs.add(self.RULE + "-panic", self.key, at(evs[-1]) if evs else "", UNK, "panic path %s" % str(v)[:80])

    # ---- validation -----------------------------------------------------------------------
    def validate(self, e, facts, evs, early):
        f = Finite(facts, self.I, 2, (self.D,), evs)
        before = guards(early)
        g = Finite(before, self.I, 2, (self.D,), early)
        for want in ("isnan", "isinf"):
            what = "NaN" if want == "isnan" else "infinite"
            st = f.status(want)
            self.obs.add("validate-data", self.key, at(e), st,
                         ("every component of data that gives a tree is checked not to be %s" if st == OK_ else "a tree is returned although a component may be %s") % what)
            st = g.status(want)
            self.obs.add("validate-first", self.key, at(e), st,
                         ("every component is checked not to be %s before the tree is built" if st == OK_ else
                          "the tree is built over components that may be %s: they are checked later, or by a thread that is not waited for") % what)
        ok = alg.implies(before, lt(ZERO, len_(self.I)))
        self.obs.add("validate-data", self.key, at(e), OK_ if ok else BAD, "an empty input is refused" if ok else "a tree is built over an empty input")

    def errpath(self, s, v):
        """an error is returned only for empty data or a NaN / infinite component"""
        evs = [e for e in s.events() if e.k != "mark"]
        facts = guards(evs)
        var = v.a[2] if v.op == "agg" and v.a[1] == 1 and len(v.a) > 2 else None
        empty = alg.implies(facts, eq(len_(self.I), ZERO))
        bad = any(c.op in ("isnan", "isinf") and val and has(c, lambda x: x is self.I) for c, val in facts) or \
            any(c.op == "isfinite" and not val for c, val in facts) or any(c.op == "forall" and not val for c, val in facts) or \
            any(c.op == "exists" and val for c, val in facts)
        name = self.variant(var)
        if empty:
            ok = name in (None, "ZeroLengthInputData")
            self.obs.add("validate-data", self.key, at(evs[-1]) if evs else "", OK_ if ok else BAD,
                         "an empty input is refused as such" if ok else "an empty input is refused as %s" % name)
        elif bad:
            ok = name in (None, "InvalidInputData")
            self.obs.add("validate-data", self.key, at(evs[-1]), OK_ if ok else BAD,
                         "a NaN or infinite component is refused as such" if ok else "a NaN or infinite component is refused as %s" % name)
        else:
            st = UNK if any(imprecise_other(c) for c, _ in facts) or not facts else BAD
            self.obs.add("validate-data", self.key, at(evs[-1]) if evs else "", st, "valid data may be refused as %s" % name)

    def variant(self, t):
        if t is None or t.op != "agg":
            return None
        for p, a in self.prog.adts.items():
            if p == t.a[0] or p.split("::")[-1] == str(t.a[0]).split("::")[-1]:
                return a["variants"][t.a[1]]["name"]
        return None


def run_build(obs, pkg, cfg, roles):
    prog = program(pkg, cfg)
    parts = partition_functions(prog)
    b = Build(obs, pkg, cfg, roles, parts)
    cs = [Construct(obs, pkg, cfg, k, roles, b, parts) for k in constructors(prog, roles)]
    for c in cs:
        c.run()
    b.run([(k, ce) for c in cs for k, ce, e in c.roots])
    for c in cs:
        for k, ce, e in c.roots:
            b.rootbox(k, ce, e)
        c.checkleaf()
    # leaf size is handed down
    for info, e, callee, node, axis, med, side, pe in b.calls:
        ci = b.done.get(callee)
        if not ci or not ci.get("leafsize") or not info.get("leafsize"):
            continue
        i = ci["params"].index(ci["leafsize"])
        got = e.a[1][i]
        ok = got is info["leafsize"]
        obs.add("build", info["nm"], at(e), OK_ if ok else (UNK if imprecise_other(got) else BAD),
                "the leaf size is handed down" if ok else "the %s child is built with leaf size %s" % (side, show(got, 5)))
    b.leafsizes(None)
    return b, cs


# ---- periodic box -------------------------------------------------------------------------------

def period_setters(prog, R):
    """exported functions taking a tree by value and one array of coordinates, giving a tree"""
    res = []
    for k, b in prog.bodies.items():
        if not b.get("bbs") or b["kind"] not in ("Fn", "AssocFn") or not b.get("exported") or b["crate"] != "fnntw":
            continue
        own = [i for i in range(b["argc"]) if ptype(b, i)["k"] == "adt" and ptype(b, i)["path"] == R.tree_adt]
        co = [i for i in range(b["argc"]) if classify_param(b, i, R) == "coords" or ptype(b, i)["k"] == "array"]
        if own and co:
            res.append((k, own[0], co[0]))
    return res


class Period:
    RULE = "validate-box"

    def __init__(self, obs, pkg, cfg, key, ti, bi, roles):
        self.obs, self.pkg, self.cfg, self.key, self.R = obs, pkg, cfg, key, roles
        self.prog = program(pkg, cfg)
        self.ti, self.bi = ti, bi

    def run(self):
        obs, R = self.obs, self.R
        body = self.prog.bodies[self.key]
        try:
            eng, outs = summarise(self.pkg, self.cfg, self.key)
        except Imprecise as e:
            obs.add(self.RULE, self.key, body["span"], UNK, "not analysed: %s" % e)
            return
        ps = params(body)
        self.t = ps[self.ti]
        bp = ps[self.bi]
        self.box = raw("deref", bp) if ptype(body, self.bi)["k"] == "ref" else bp
        root = fld(self.t, None, R.root)
        self.lows = [fld(root, R.leaf, R.l_lo), fld(root, R.stem, R.s_lo)]
        self.ups = [fld(root, R.leaf, R.l_hi), fld(root, R.stem, R.s_hi)]
        okp = 0
        for s, v in outs:
            evs = s.events()
            facts = guards(evs)
            site = at(evs[-1]) if evs else ""
            if isinstance(v, Panic):
                obs.add(self.RULE, self.key, site, UNK, "panic path %s" % str(v)[:60])
                continue
            obs.note("box validation paths")
            if v.op == "agg" and v.a[1] == 0 and len(v.a) > 2:
                okp += 1
                self.okpath(v.a[2], facts, site)
            elif v.op == "agg" and v.a[1] == 1:
                self.errpath(v.a[2], facts, site)
            else:
                obs.add(self.RULE, self.key, site, UNK, "result %s" % show(v, 4))
        if not okp:
            obs.add(self.RULE, self.key, body["span"], BAD, "no box is ever accepted")

    def perc(self, facts):
        """facts that hold for every component j: list of (term, value) with j the symbol"""
        j = sym(("component", "usize"))
        D = [x for c, v in facts for x in walk(c) if x.op == "cparam"]
        res = []

        def go(t, val):
            if t.op == "not":
                go(t.a[0], not val)
            elif t.op == "and" and val or t.op == "or" and not val:
                for x in t.a:
                    go(x, val)
            else:
                res.append((t, val))
        for c, v in facts:
            if c.op == "forall" and v or c.op == "exists" and not v:
                b, lo, hi, x = open_(c)
                if lo is ZERO and (hi.op == "cparam" or hi.op == "len"):
                    go(subst(x, {b: j}), v)
                else:
                    self.odd = True
            elif c.op in ("forall", "exists"):
                self.odd = True
        return j, res

    def okpath(self, t, facts, site):
        obs, R = self.obs, self.R
        self.odd = False
        j, al = self.perc(facts)
        variant = [c.a[1] if v else 1 - c.a[1] for c, v in facts if c.op == "is" and c.a[0] is fld(self.t, None, R.root)]
        los = [idx(x, j) for x in self.lows]
        ups = [idx(x, j) for x in self.ups]
        b = idx(self.box, j)
        if variant:
            vs = variant[:1]
            los = [idx(fld(fld(self.t, None, R.root), R.leaf, R.l_lo) if vs[0] == R.leaf else fld(fld(self.t, None, R.root), R.stem, R.s_lo), j)]
            ups = [idx(fld(fld(self.t, None, R.root), R.leaf, R.l_hi) if vs[0] == R.leaf else fld(fld(self.t, None, R.root), R.stem, R.s_hi), j)]

        def has_(op, arg, val=False):
            return any(t.op == op and v == val and any(t.a[0] is x for x in arg) for t, v in al)
        zero = F(0.0)
        nonneg_ = has_("isneg", los) or any(alg.implies(al, le(zero, x), ints=False) for x in los)
        im = self.odd or any(imprecise_other(c) for c, _ in facts)
        self.res(nonneg_, site, "no coordinate of the data is negative", "data with negative coordinates is accepted", im)
        fin = has_("isfinite", [b], True)
        # a comparison that holds has no NaN in it
        cmp_ = [c for c, v in al if v and c.op in ("lt", "le", "eq") and any(x is b for x in c.a)]
        big = any(c.op in ("lt", "le") and c.a[0] is b and c.a[1].op == "flt" and (c.op == "lt" or c.a[1].a[0] != "inf") for c in cmp_)
        fin = fin or big
        self.res(fin or bool(cmp_) or has_("isnan", [b]), site, "the box is not NaN", "a box with a NaN side is accepted", im)
        self.res(fin or has_("isinf", [b]), site, "the box is finite", "a box with an infinite side is accepted", im)
        enc = any(alg.implies(al, le(x, b), ints=False) for x in ups)
        self.res(enc, site, "the box encloses the data", "a box smaller than the data is accepted", im)
        want = fupd(self.t, None, R.boxsize, some(self.box))
        ok = t is want
        if not ok and t.op == "agg" and t.a[0] == R.tree_adt:
            ok = all(fld(t, None, i) is (some(self.box) if i == R.boxsize else fld(self.t, None, i)) for n, (i, s) in R.tf.items())
        if not ok:
            # the same box, component by component
            bx = fld(t, None, R.boxsize)
            if bx.op == "agg" and bx.a[1] == 1 and len(bx.a) == 3:
                same_ = idx(bx.a[2], j) is b
                ok = same_ and all(fld(t, None, i) is fld(self.t, None, i) for n, (i, s) in R.tf.items() if i != R.boxsize)
        self.res(ok, site, "the box given becomes the tree's period, nothing else changes", "the tree returned is %s" % show(t, 6), imprecise_other(t),
                 "period-stored")

    def res(self, ok, site, good, bad, im, rule=None):
        self.obs.add(rule or self.RULE, self.key, site, OK_ if ok else UNK if im else BAD, good if ok else bad)

    def errpath(self, e, facts, site):
        name = Construct.variant(self, e)
        mine = lambda c, arrs: any(has(c, lambda x: x is a) for a in arrs)
        zero = lambda x: x.op in ("flt", "int") and x.a[0] == 0
        reasons = set()
        for c, v in facts:
            if c.op == "isneg" and v and mine(c, self.lows):
                reasons.add("NegativeDataPeriodicQuery")
            if c.op == "lt" and v and mine(c.a[0], self.lows) and zero(c.a[1]) or c.op == "le" and not v and zero(c.a[0]) and mine(c.a[1], self.lows):
                reasons.add("NegativeDataPeriodicQuery")
            if c.op == "lt" and v and mine(c.a[0], [self.box]) and mine(c.a[1], self.ups):
                reasons.add("SmallBoxsize")
            if c.op == "le" and not v and mine(c.a[0], self.ups) and mine(c.a[1], [self.box]):
                reasons.update(("SmallBoxsize", "InvalidBoxsize"))
            if c.op in ("isnan", "isinf") and v and (mine(c, [self.box]) or mine(c, self.lows)):
                reasons.add("InvalidBoxsize")
            if c.op == "isfinite" and not v:
                reasons.add("InvalidBoxsize")
            if c.op in ("forall",) and not v or c.op == "exists" and v:
                reasons.update(("NegativeDataPeriodicQuery", "SmallBoxsize", "InvalidBoxsize"))
        if name is None or name in reasons:
            self.obs.add(self.RULE, self.key, site, OK_ if reasons else UNK, "refused with a reason (%s)" % name)
        elif reasons:
            self.obs.add(self.RULE, self.key, site, BAD, "refused as %s although the reason is %s" % (name, sorted(reasons)))
        else:
            im = any(imprecise_other(c) for c, _ in facts) or not facts
            self.obs.add(self.RULE, self.key, site, UNK if im else BAD, "a box may be refused as %s without reason" % name)
