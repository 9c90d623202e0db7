"""The lemmas (each gives obligations over the current source), and the properties made of them."""
import traceback
from core import *
import search
import entry
import build
import valid
import partition
import helpers
import purity
import witness
import unsafe
import panics
import binding

ALL_CONFIGS = []
for _p in ((), ("parallel",)):
    for _s in ((), ("sqrt-dist2",)):
        for _r in ((), ("no-position",), ("no-index", "no-position")):
            ALL_CONFIGS.append(tuple(sorted(_p + _s + _r)))
QUICK_CONFIGS = ALL_CONFIGS

CATS = [
    ("validation", ("NaN or infinite", "an axis outside", "the query is not validated")),
    ("units", ("square root",)),
    ("rows", ("row", "buffer", "concurrent", "work area", "handed to the next query", "processing of the queries", "first queries", "reused container", "some entries are not written", "per query")),
    ("periodic", ("image", "periodic", "mask", "wrapped", "side may be closer", "axes enumerated")),
    ("columns", ("index or position", "column", "returned for a rank")),
    ("order", ("sorted container", "sorted by", "instead of min", "k = 0 does not give", "holds up to")),
]


# what belongs to a second category as well
ALSO = [
    ("order", ("container is not seeded",)),
    ("rows", ("container is not seeded", "seeded with the distance")),
]


def category(msg):
    r = {c for c, ws in ALSO if any(w in msg for w in ws)}
    for c, ws in CATS:
        if any(w in msg for w in ws):
            return r | {c}
    return r | {"base"}


def tagged(obs, start, tags, cats=None):
    """tag the obligations added since start"""
    extra = []
    for o in obs[start:]:
        o.tags = set(tags)
        if o.rule == "entry":
            if o.status == OK_ and cats:
                o.tags |= set(cats)
            else:
                o.tags |= category(o.detail)
    return extra


class Lemmas:
    def __init__(self, cfg):
        self.cfg = tuple(sorted(cfg))
        self.cache = {}

    def get(self, name):
        if name not in self.cache:
            obs = Obs(",".join(self.cfg) or "none")
            try:
                getattr(self, "l_" + name)(obs)
            except facts.FactError:
                raise
            except Exception as e:      # an analysis that fails gives no verdict
                obs.add(name, "", "", UNK, "the analysis failed: %s" % (traceback.format_exc().strip().split("\n")[-1]))
                obs.trace = traceback.format_exc()
            for o in obs:
                if not hasattr(o, "tags"):
                    o.tags = set()
            self.cache[name] = obs
        return self.cache[name]

    @property
    def prog(self):
        return program("fnntw", self.cfg)

    @property
    def R(self):
        if not hasattr(self, "_R"):
            self._R = Roles(self.prog)
        return self._R

    # -- queries
    def l_search(self, obs):
        ms = entry.search_functions(self.prog, self.R)
        for k in sorted(ms):
            m = ms[k]
            n = len(obs)
            search.SearchProof(obs, "fnntw", self.cfg, k, self.R).run()
            tags = {"knn" if "container" in m else "nn1"}
            if "container" in m and "int" in m:
                tags.add("axis")
            else:
                tags.add("noaxis")
            tagged(obs, n, tags)
            obs.note("search functions")
        if not ms:
            obs.add("search-shape", "", "", UNK, "no recursive search function found")

    def entries(self):
        for k in entry.entry_points(self.prog, self.R):
            yield k

    def l_entry(self, obs):
        for k in self.entries():
            n = len(obs)
            try:
                E = entry.Entry(obs, "fnntw", self.cfg, k, self.R)
                tags, cats = self.etags(E)
                E.run()
            except Imprecise as e:
                obs.add("entry", k, self.prog.bodies[k]["span"], UNK, "not analysed: %s" % e)
                tags, cats = {"nn1", "knn", "axis", "par", "noaxis"}, None
            tagged(obs, n, tags, cats)
            obs.note("query functions")

    def etags(self, E):
        tags = {"knn" if E.kmode else "nn1"}
        cats = {"base", "units", "periodic", "columns", "validation"}
        tags.add("axis" if E.axis is not None else "noaxis")
        if E.kmode:
            cats.add("order")
        if E.par:
            tags.add("par")
            cats.add("rows")
        return tags, cats

    def l_queryerrors(self, obs):
        for k in self.entries():
            n = len(obs)
            try:
                E = entry.Entry(obs, "fnntw", self.cfg, k, self.R)
                tags, _ = self.etags(E)
                valid.QueryErrors(obs, "fnntw", self.cfg, E).run()
            except Imprecise as e:
                obs.add("query-errors", k, self.prog.bodies[k]["span"], UNK, "not analysed: %s" % e)
                tags = {"nn1", "knn"}
            tagged(obs, n, tags)

    def l_order(self, obs):
        """the order of the candidates of each container"""
        n = 0
        for a in sorted(self.prog.adts):
            if not a.split("::")[-1].startswith("Container"):
                continue
            try:
                cs = search.ContainerShape(self.prog, a)
            except (Imprecise, KeyError):
                obs.add("order", a, "", UNK, "the container does not keep a heap of candidates")
                continue
            for k in helpers.Ordering.of(self.prog, cs.cadt):
                m = len(obs)
                helpers.Ordering(obs, "fnntw", self.cfg, k, cs).run()
                tagged(obs, m, {"knn", "axis" if cs.axis else "noaxis"})
                n += 1
        if not n:
            obs.add("order", "", "", UNK, "no order of candidates found")

    def l_helpers(self, obs):
        helpers.Helpers(obs, "fnntw", self.cfg, self.R).run()

    def l_purity(self, obs):
        purity.Purity(obs, "fnntw", self.cfg, self.R, list(self.entries())).run()

    def l_features(self, obs):
        """the query functions documented for a combination of features exist in it"""
        names = {self.prog.bodies[k]["name"]: k for k in self.entries()}
        want = ["query_nearest", "query_nearest_k"]
        if "parallel" in self.cfg and "no-position" in self.cfg:
            want += ["query_nearest_k_parallel", "query_nearest_k_parallel_with", "query_nearest_k_parallel_axis"]
        for w in want:
            k = names.get(w)
            b = self.prog.bodies[k] if k else None
            obs.add("features", k or w, b["span"] if b else "", OK_ if k else BAD, "" if k else "%s is missing with the features %s" % (w, ",".join(self.cfg) or "none"))
            if k:
                self.columns(obs, k, b, w)
        tree = {b["name"] for k, b in self.prog.bodies.items() if b["kind"] == "AssocFn" and b.get("exported") and b.get("impl_self") is not None
                and b["types"][b["impl_self"]].get("path") == self.R.tree_adt}
        for w in ("new", "new_parallel", "with_boxsize"):
            obs.add("features", w, "", OK_ if w in tree else BAD, "" if w in tree else "Tree::%s is missing with the features %s" % (w, ",".join(self.cfg) or "none"))

    def columns(self, obs, k, b, w):
        """distances, then indices and positions as the features say"""
        t = b["types"][b["locals"][0]]
        if t["k"] != "adt" or not t.get("args"):
            return
        t = b["types"][t["args"][0]["t"]]
        if t["k"] != "tuple":
            return
        got = []
        for x in t["of"]:
            s = b["types"][x]["s"]
            got.append("position" if "[" in s else "index" if "u64" in s else "distance")
        axis = "axis" in w
        want = ["distance"] * (2 if axis else 1)
        if not axis or "no-index" not in self.cfg:
            want.append("index")
        if "no-position" not in self.cfg:
            want.append("position")
        obs.add("features", k, b["span"], OK_ if got == want else BAD, "" if got == want else "the columns returned are %s instead of %s" % (", ".join(got), ", ".join(want)))

    def l_witness(self, obs):
        witness.run(obs, self.prog, self.cfg)

    def l_unsafe(self, obs):
        unsafe.Unsafe(obs, "fnntw", self.cfg, self.R).run()

    def l_panics(self, obs):
        panics.Panics(obs, "fnntw", self.cfg, self.R).run()

    def l_binding(self, obs):
        binding.Binding(obs).run()

    # -- construction
    def l_build(self, obs):
        b, cs = build.run_build(obs, "fnntw", self.cfg, self.R)
        for c in cs:
            obs.note("constructors")
        for k in b.parts:
            obs.note("partition functions")
        if not cs:
            obs.add("construct", "", "", UNK, "no constructor found")

    def l_partition(self, obs):
        ks = build.partition_functions(self.prog)
        for k in ks:
            got = SHARED.get((k, region(self.prog, k))) if SHARED else None
            if got is None:
                partition.Partition(obs, "fnntw", self.cfg, k, self.R).run()
            else:       # the same code has been analysed in another combination of features
                for rule_, site, status, detail, fn in got[0]:
                    obs.append(Ob(rule_, site, status, detail, obs.cfg, fn))
                for w, n in got[1].items():
                    obs.note(w, n)
            obs.note("partition functions")
        if not ks:
            obs.add("partition", "", "", UNK, "no partition function found")

    def l_period(self, obs):
        n = 0
        for k, ti, bi in build.period_setters(self.prog, self.R):
            build.Period(obs, "fnntw", self.cfg, k, ti, bi, self.R).run()
            n += 1
        if not n:
            obs.add("validate-box", "", "", UNK, "no function sets a period")


# ---- what is the same in several combinations of features is analysed once --------------------------

SHARED = {}


def region(prog, key):
    """identity of a function and of everything it may reach"""
    todo, seen = [key], set()
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        todo += [c for c in prog.callees(prog.bodies[k]) if c not in seen]
    hs = sorted(prog.bodies[k]["h"] for k in seen)
    hs += sorted(b["h"] for b in prog.bodies.values() if b.get("impl_trait") or b["kind"] not in ("Fn", "AssocFn", "Closure"))
    hs += sorted(a["h"] for a in prog.adts.values())
    return tuple(hs)


def share(lemmas, cfgs, spread):
    """analyse the partition functions of all configurations, each distinct one once"""
    if "partition" not in lemmas:
        return
    jobs = {}
    for c in cfgs:
        try:
            prog = program("fnntw", c)
            for k in build.partition_functions(prog):
                jobs.setdefault((k, region(prog, k)), c)
        except facts.FactError:
            continue
    todo = sorted(jobs.items(), key=lambda x: (len(program("fnntw", x[1]).bodies[x[0][0]]["bbs"]), x[0][0]), reverse=True)

    def f(job):
        (k, _), c = job
        L = Lemmas(c)
        obs = Obs(",".join(L.cfg) or "none")
        try:
            partition.Partition(obs, "fnntw", L.cfg, k, L.R).run()
        except Exception:
            return None
        return [(o.rule, o.site, o.status, o.detail, o.fn) for o in obs], obs.analysed
    for (key, c), r in zip(todo, spread(f, todo)):
        if r is not None and isinstance(r[0], list) and not (r[0] and isinstance(r[0][0], Ob)):
            SHARED[key] = r


# ---- properties: (lemma, predicate on obligation) -------------------------------------------------

def rule(*names):
    return lambda o: o.rule in names or any(n.endswith("*") and o.rule.startswith(n[:-1]) for n in names)


def tag(*ts):
    return lambda o: all(t in o.tags for t in ts)


def both(*ps):
    return lambda o: all(p(o) for p in ps)


def anycat(*cs):
    return lambda o: any(c in o.tags for c in cs)


def nocat(*cs):
    return lambda o: not any(c in o.tags for c in cs) or o.status == OK_


ANY = lambda o: True

PROPS = {
    "C01": dict(title="nearest neighbour is exact", parts=[
        ("search", tag("nn1")), ("entry", both(tag("nn1"), nocat("validation"))), ("build", rule("build", "construct"))]),
    "C02": dict(title="k nearest neighbours are exact", parts=[
        ("search", tag("knn", "noaxis")), ("order", tag("noaxis")), ("entry", both(tag("knn", "noaxis"), nocat("validation"))),
        ("build", rule("build", "construct"))]),
    "C03": dict(title="periodic queries", parts=[
        ("search", ANY), ("entry", anycat("periodic", "base")), ("period", rule("period-stored"))]),
    "C04": dict(title="tree structure", parts=[
        ("build", rule("build", "construct")), ("partition", rule("partition"))]),
    "C05": dict(title="partition", parts=[
        ("partition", ANY)]),
    "C06": dict(title="parallel construction", parts=[
        ("build", rule("build*", "construct*"))]),
    "C07": dict(title="validation at construction", parts=[
        ("build", rule("validate-data")), ("period", ANY)]),
    "C08": dict(title="validation of queries", parts=[
        ("queryerrors", ANY), ("entry", tag("validation"))]),
    "C09": dict(title="parallel rows", parts=[
        ("entry", both(tag("par"), anycat("rows", "base", "columns", "order", "units"))),
        ("search", both(tag("knn"), rule("search-drain")))]),
    "C10": dict(title="distance units", parts=[
        ("entry", tag("units"))]),
    "C11": dict(title="order and count", parts=[
        ("entry", both(tag("knn"), anycat("order", "columns", "rows", "base"))), ("search", both(tag("knn"), rule("search-extra"))), ("order", ANY)]),
    "C12": dict(title="axis queries", parts=[
        ("search", tag("axis")), ("order", tag("axis")), ("entry", both(tag("axis"), nocat("validation")))]),
    "C13": dict(title="index and position agree with the distance", parts=[
        ("entry", tag("columns")), ("build", both(rule("construct"), lambda o: "position" in o.detail or "point" in o.detail))]),
    "C21": dict(title="public distance functions", parts=[
        ("helpers", ANY)]),
    "C14": dict(title="queries leave nothing behind", parts=[
        ("purity", ANY), ("entry", both(tag("par"), anycat("rows")))]),
    "C15": dict(title="unchecked accesses", parts=[
        ("unsafe", ANY), ("partition", rule("partition-bounds")), ("entry", both(tag("par"), anycat("rows"))),
        ("entry", tag("validation")), ("search", both(tag("knn"), lambda o: "overflowing" in o.detail)),
        ("build", rule("validate-first")),
        ("build", lambda o: "link is" in o.detail or "the index returned" in o.detail)]),
    "C16": dict(title="a tree cannot outlive its data", configs=((), ("no-index", "no-position", "parallel", "sqrt-dist2"), ("no-position", "parallel")), parts=[
        ("witness", ANY)]),
    "C17": dict(title="no panic, no hang", parts=[
        ("panics", ANY), ("partition", rule("partition-panic", "partition-balance")), ("build", lambda o: o.rule.endswith("-panic")), ("period", lambda o: o.rule.endswith("-panic"))]),
    "C18": dict(title="the Python classes", configs=((),), parts=[
        ("binding", rule("py-rows", "py-shape", "py-build", "py-refuse", "py-module", "py-error"))]),
    "C19": dict(title="errors and lifetimes in Python", configs=((),), parts=[
        ("binding", rule("py-error", "py-owner"))]),
    "C20": dict(title="features", compiles=True, differs=True, parts=[
        ("features", ANY), ("search", ANY), ("entry", ANY), ("queryerrors", ANY), ("build", ANY), ("period", ANY), ("order", ANY)]),
}
EXTRA_CONFIGS = [c + ("timing",) for c in ALL_CONFIGS]
