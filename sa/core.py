"""Shared pieces of the rules: obligations, structure roles, summaries."""
import os
import time
import facts
from engine import *
from terms import *
import alg
from run import program, params
import run as RUN

REPO = "/repo"
OK_, BAD, UNK = "ok", "bad", "unknown"
DEFAULT = ("no-index", "no-position", "parallel", "sqrt-dist2")


class Ob:
    """One obligation: a rule at a construct."""
    __slots__ = ("rule", "site", "status", "detail", "cfg", "fn", "tags")

    def __init__(self, rule, site, status, detail="", cfg="", fn=""):
        self.rule, self.site, self.status, self.detail, self.cfg, self.fn = rule, site, status, detail, cfg, fn

    def __getstate__(self):
        return {k: getattr(self, k) for k in self.__slots__ if hasattr(self, k)}

    def __setstate__(self, d):
        for k, v in d.items():
            setattr(self, k, v)

    def key(self):
        return "%s|%s|%s" % (self.rule, self.fn, self.detail.split("\n")[0][:160])


IMPRECISE_OPS = {"havoc", "call", "undef", "constant", "constarg", "callret"}


def imprecise(*ts):
    for t in ts:
        if isinstance(t, T):
            for x in walk(t):
                if x.op in IMPRECISE_OPS:
                    return True
    return False


class Obs(list):
    def __init__(self, cfg=""):
        list.__init__(self)
        self.cfg = cfg
        self.analysed = {}

    def add(self, rule, fn, site, status, detail=""):
        if status is True:
            status = OK_
        elif status is False:
            status = BAD
        elif status is None:
            status = UNK
        self.append(Ob(rule, site, status, detail, self.cfg, short(fn)))
        return status

    def note(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n


def short(k):
    import re
    return re.sub(r"::\{impl#\d+\}", "", str(k))


# ---- roles ----------------------------------------------------------------------------------

class Roles:
    def __init__(self, prog, crate="fnntw"):
        self.prog = prog
        pre = "" if "Tree" in prog.adts else crate + "::"
        adts = prog.adts
        self.tree_adt = self.find(adts, "Tree")
        self.node_adt = self.find(adts, "Node")
        self.point_adt = self.find(adts, "Point")
        ta = adts[self.tree_adt]
        tf = {}
        for i, f in enumerate(ta["variants"][0]["fields"]):
            tf[f["name"]] = (i, ta["types"][f["ty"]]["s"])
        self.tf = tf

        def byty(names, pred):
            for n in names:
                if n in tf:
                    return tf[n][0]
            for n, (i, s) in tf.items():
                if pred(s):
                    return i
            raise KeyError("no field of the tree for %s" % (names,))
        self.nodes = byty(["nodes"], lambda s: "Vec<" in s and "Node<" in s)
        self.root = byty(["root_node", "root"], lambda s: s.startswith("Node<"))
        self.start = byty(["start"], lambda s: s.startswith("*const"))
        self.boxsize = byty(["boxsize"], lambda s: "Option<" in s)
        self.input = byty(["input"], lambda s: s.startswith("&") and "[[" in s)
        self.data = byty(["data"], lambda s: "Vec<" in s and "Point<" in s)
        na = adts[self.node_adt]
        self.stem = self.leaf = None
        for vi, v in enumerate(na["variants"]):
            tys = [na["types"][f["ty"]]["s"] for f in v["fields"]]
            if any("Vec<" in s and "Point<" in s for s in tys):
                self.leaf = vi
                lf = v
            else:
                self.stem = vi
                sf = v
        sn = {f["name"]: i for i, f in enumerate(sf["fields"])}
        ln = {f["name"]: i for i, f in enumerate(lf["fields"])}
        self.sn, self.ln = sn, ln
        self.s_dim, self.s_point, self.s_left, self.s_right = sn["split_dim"], sn["point"], sn["left"], sn["right"]
        self.s_lo, self.s_hi = sn["lower"], sn["upper"]
        self.l_points, self.l_lo, self.l_hi = ln["points"], ln["lower"], ln["upper"]
        self.p_ptr = 0

    @staticmethod
    def find(adts, name):
        c = [p for p in adts if p.split("::")[-1] == name]
        if not c:
            raise KeyError("type %s not found" % name)
        return sorted(c, key=len)[0]

    # terms
    def tree(self, selfp):
        return deref(selfp)

    def nodeat(self, selfp, i):
        return idx(fld(deref(selfp), None, self.nodes), i)

    def rootof(self, selfp):
        return fld(deref(selfp), None, self.root)

    def child(self, nv, i):
        return fld(nv, self.stem, i)


def deref(p):
    """value behind a pointer in the initial memory"""
    c, pr = place_of(p)
    v = raw("deref", c.a[0]) if c.op == "D" else raw("undef", c)
    for x in pr:
        v = project(v, x)
    return v


def loadenv(env, ptr):
    c, pr = place_of(ptr)
    return readenv(env, c, pr)


def readenv(env, c, pr):
    v = env.get(c)
    if v is None:
        v = raw("deref", c.a[0]) if c.op == "D" else raw("undef", c)
    for x in pr:
        v = project(v, x)
    return v


_sums = {}


def summarise(pkg, cfg, key, stop_at=(), snap=False, cenv=None, arith=False, devirt=None, strides=False):
    k = (pkg, tuple(sorted(cfg)), key, tuple(sorted(stop_at)), snap, tuple(sorted(cenv.items())) if cenv else None, arith, devirt, strides)
    if k not in _sums:
        prog = program(pkg, cfg)
        try:
            _sums[k] = RUN.summary(prog, key, stop_at=stop_at, snap=snap, cenv=cenv, arith=arith, devirt=devirt, strides=strides)
        except Imprecise as e:
            _sums[k] = e
            e.partial = RUN.last.partial
        except RecursionError:
            _sums[k] = Imprecise("recursion")
            _sums[k].partial = []
    r = _sums[k]
    if isinstance(r, Exception):
        raise r
    return r


def find_fn(prog, name, crate="fnntw", mod=None):
    c = [k for k, b in prog.bodies.items() if b.get("bbs") and b["kind"] in ("Fn", "AssocFn") and b["name"] == name and b["crate"] == crate
         and (mod is None or mod in k)]
    return c


def allevents(events):
    """every event, loops included (all back paths and exits)"""
    for e in events:
        yield e
        if e.k == "loop":
            rec = e.a[0]
            for p in rec.backs:
                yield from allevents(p.events)
            for p in rec.exits:
                yield from allevents(p.events)


def guards(events):
    return [(e.a[0], e.a[1]) for e in events if e.k == "guard"]


def ptype(body, i):
    """type of parameter i (0-based)"""
    return body["types"][body["locals"][i + 1]]


def tyref(body, t):
    return body["types"][t["to"]]


def classify_param(body, i, roles):
    t = ptype(body, i)
    types = body["types"]
    if t["k"] == "ref":
        to = types[t["to"]]
        if to["k"] == "adt":
            n = to["path"].split("::")[-1]
            if to["path"] == roles.tree_adt:
                return "tree"
            if to["path"] == roles.node_adt:
                return "node"
            if to["path"] == roles.point_adt:
                return "point"
            if n.startswith("Container"):
                return "container"
            if n == "Vec":
                a = to["args"][0].get("t") if to.get("args") else None
                if a is not None and types[a]["k"] == "tuple":
                    return "queue"
                return "vec"
            if n == "NotNan":
                return "scalarref"
            return "adt:" + n
        if to["k"] == "array":
            return "coords"
        if to["k"] == "slice" and types[to["of"]]["k"] == "array":
            return "queries"
        if to["k"] == "param":
            return "best" if t.get("mut") else "scalarref"
        if to["k"] == "float":
            return "best" if t.get("mut") else "scalarref"
        if to["k"] == "ref":
            return "nb"
        if to["k"] == "int":
            return "intref"
    if t["k"] == "int":
        return "int"
    return t["k"]
