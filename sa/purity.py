"""Queries leave nothing behind: effects of everything reachable from the query functions.

effects : no write on any path of a query lands in memory reached through a shared reference (tree, data, query);
state   : nothing a query reads is state that another query may have changed: statics with interior mutability,
          mutable statics, thread-locals, or interior mutability behind the tree."""
import re
from core import *
import entry

ATOMIC_READ = ("load", "swap", "compare_exchange", "compare_exchange_weak", "fetch_update", "compare_and_swap")
CELL_READ = ("get", "take", "replace", "borrow", "borrow_mut", "try_borrow", "try_borrow_mut", "as_ptr", "swap", "update", "with_borrow",
             "with_borrow_mut", "lock", "try_lock", "read", "write", "try_read", "try_write", "with", "try_with", "get_mut")
ONCE = ("OnceCell", "OnceLock", "LazyLock", "LazyCell", "Lazy", "Once")


def operands(x):
    """every operand (dict with k) in a MIR piece"""
    if isinstance(x, dict):
        if x.get("k") in ("copy", "move", "const"):
            yield x
        else:
            for v in x.values():
                yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


class Reach:
    """bodies reachable from the given ones, with their call sites"""

    def __init__(self, prog, roots, skip=lambda k: False):
        self.prog = prog
        self.seen = {}
        self.sites = {}          # key -> [(caller, args)]
        self.made = {}           # closure key -> [(body key, operands)]
        todo = list(roots)
        self.roots = set(roots)
        while todo:
            k = todo.pop()
            if k in self.seen or k not in prog.bodies or skip(k):
                continue
            b = prog.bodies[k]
            if not b.get("bbs"):
                continue
            self.seen[k] = b
            for bb in b["bbs"]:
                if bb.get("cleanup"):
                    continue
                for s in bb["s"]:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    if rv[0] == "agg" and rv[1][0] == "closure":
                        self.made.setdefault(rv[1][1], []).append((k, rv[2]))
                        todo.append(rv[1][1])
                t = bb["t"]
                if t[0] == "call":
                    f = t[1].get("fn") if isinstance(t[1], dict) else None
                    if f:
                        for kk in (f.get("rkey"), f.get("key")):
                            if kk in prog.bodies:
                                self.sites.setdefault(kk, []).append((k, t[2]))
                                break
                for o in operands(bb["s"]):
                    self.fn(b, o, todo)
                for o in operands(t):
                    self.fn(b, o, todo)
    def fn(self, b, o, todo):
        if o["k"] == "const" and "ty" in o and b["types"][o["ty"]]["k"] == "closure":      # a closure without captures
            todo.append(b["types"][o["ty"]]["key"])
        f = o.get("fn")
        if f:
            for kk in (f.get("rkey"), f.get("key")):
                if kk in self.prog.bodies:
                    todo.append(kk)
                    break


class Origins:
    """where a reference comes from: ('static', name), ('param', key, i), ('local',), ('unknown',)"""

    def __init__(self, reach):
        self.r = reach
        self.defs = {}
        self.cell = None         # type looked for: a value that owns one is where it comes from

    def assigns(self, key):
        if key not in self.defs:
            d = {}
            for bb in self.r.seen[key]["bbs"]:
                for s in bb["s"]:
                    if s[0] == "=":
                        d.setdefault(s[1][0], []).append(("rv", s[2]))
                t = bb["t"]
                if t[0] == "call":
                    d.setdefault(t[3][0], []).append(("call", t[2], t[1]))
            self.defs[key] = d
        return self.defs[key]

    def op(self, key, o, seen):
        if o["k"] == "const":
            return {("static", o["static"])} if "static" in o else set()
        return self.place(key, o["p"], seen)

    def place(self, key, p, seen):
        if p[0] == 1 and key not in self.r.roots and key in self.r.made:
            fs = [x for x in p[1] if x[0] == "f"]
            if fs:
                res = set()
                for k, ops in self.r.made[key]:
                    if fs[0][1] < len(ops) and (key, "cap", fs[0][1]) not in seen:
                        res |= self.op(k, ops[fs[0][1]], seen | {(key, "cap", fs[0][1])})
                return res
        return self.local(key, p[0], seen)

    def local(self, key, l, seen):
        if (key, l) in seen:
            return set()
        seen = seen | {(key, l)}
        b = self.r.seen[key]
        res = set()
        if 1 <= l <= b["argc"]:
            res |= self.param(key, l - 1, seen)
        for d in self.assigns(key).get(l, ()):
            if d[0] == "call":
                ty = b["types"][b["locals"][l]]["s"]
                if self.cell and self.cell in ty and not re.search(r"&|\*|Arc<|Rc<", ty.split(self.cell)[0]):
                    res.add(("local",))
                    continue
                for a in d[1]:
                    res |= self.op(key, a, seen)
                continue
            rv = d[1]
            if rv[0] in ("ref", "rawptr"):
                p = rv[2]
                if any(x[0] == "*" for x in p[1]):
                    res |= self.place(key, p, seen)
                else:
                    res.add(("local",))
            elif rv[0] == "other" and "ThreadLocal" in str(rv):
                res.add(("static", "thread local"))
            else:
                for o in operands(rv):
                    res |= self.op(key, o, seen)
        return res

    def param(self, key, i, seen):
        if key in self.r.roots:
            return {("param", key, i)}
        b = self.r.seen[key]
        if b["kind"] == "Closure" or "closure" in key.split("::")[-1]:
            if i:
                return {("unknown",)}
            res = set()
            for k, ops in self.r.made.get(key, ()):
                for o in ops:
                    res |= self.op(k, o, seen)
            return res
        res = set()
        for k, args in self.r.sites.get(key, ()):
            if i < len(args):
                res |= self.op(k, args[i], seen)
        return res or {("unknown",)}


class Purity:
    RULE = "purity"

    def __init__(self, obs, pkg, cfg, roles, roots):
        self.obs, self.pkg, self.cfg, self.R, self.roots = obs, pkg, cfg, roles, roots
        self.prog = program(pkg, cfg)

    def run(self):
        self.reach = Reach(self.prog, self.roots)
        self.org = Origins(self.reach)
        for k in sorted(self.reach.seen):
            self.obs.note("functions reachable from queries")
        self.state()
        for k in self.roots:
            self.effects(k)

    # -- shared state
    def statics(self):
        r = {}
        for k, b in self.prog.bodies.items():
            if str(b["kind"]).startswith("Static"):
                r[b.get("path", k)] = b
        return r

    def state(self):
        obs = self.obs
        stat = self.statics()
        for k, b in sorted(self.reach.seen.items()):
            bad = 0
            for bb in b["bbs"]:
                if bb.get("cleanup"):
                    continue
                t = bb["t"]
                if t[0] == "call" and isinstance(t[1], dict) and t[1].get("fn"):
                    st, why = self.call(k, b, t, stat)
                    if st is not None:
                        bad += 1
                        obs.add(self.RULE, k, bb["sp"], st, why)
                # direct use of a mutable static
                for s in bb["s"]:
                    if s[0] != "=":
                        continue
                    for o in operands(s[2]):
                        if "static" in o and stat.get(o["static"], {}).get("mut"):
                            bad += 1
                            obs.add(self.RULE, k, s[3], BAD, "a query uses the mutable static %s" % o["static"])
            if not bad:
                obs.add(self.RULE, k, b["span"], OK_, "no shared state is read")

    def call(self, k, b, t, stat):
        f = t[1]["fn"]
        path = f["path"]
        parts = re.sub(r"<.*?>", "", path).split("::")
        name = f["name"]
        owner = ""
        if "impl_self" in f:
            ty = b["types"][f["impl_self"]]
            owner = ty.get("path", "").split("::")[-1]
        if not owner and len(parts) > 1:
            owner = parts[-2]
        atomic = owner.startswith("Atomic") or "sync::atomic" in path
        tl = owner == "LocalKey" or "thread::local" in path
        cell = owner in ("Cell", "RefCell", "Mutex", "RwLock", "UnsafeCell", "SyncUnsafeCell", "FairMutex", "ReentrantMutex", "AtomicCell")
        once = owner in ONCE
        if not (atomic or tl or cell or once):
            return None, ""
        if name in ("new", "into_inner", "default", "from"):
            return None, ""
        args = t[2]
        self.org.cell = owner
        org = self.org.op(k, args[0], frozenset()) if args else set()
        if tl:
            shared = "a thread-local value"
        else:
            shared = None
            for o in org:
                if o[0] == "static":
                    shared = "the static %s" % o[1]
                elif o[0] == "param" and self.shared(o[1], o[2]):
                    shared = "state kept in the tree"
        if shared is None:
            return None, ""
        if once:
            return UNK, "a value computed once is used (%s)" % shared
        if atomic:
            if name.startswith("fetch_") and name != "fetch_update":
                d = t[3]
                used = self.used(b, d[0])
                if not used:
                    return None, ""
                return BAD, "a query reads %s, which other queries change" % shared
            if name not in ATOMIC_READ:
                return None, ""
            return BAD, "a query reads %s, which other queries may change" % shared
        if name in CELL_READ:
            return BAD, "a query reads %s, which other queries may change" % shared
        return None, ""

    def used(self, b, l):
        for bb in b["bbs"]:
            if bb.get("cleanup"):
                continue
            for s in bb["s"]:
                if s[0] == "=":
                    for o in operands(s[2]):
                        if o["k"] != "const" and o["p"][0] == l:
                            return True
                    if s[2][0] in ("ref", "rawptr", "discr") and s[2][-1][0] == l:
                        return True
            for o in operands(bb["t"]):
                if o["k"] != "const" and o["p"][0] == l:
                    return True
        return False

    def shared(self, key, i):
        t = ptype(self.prog.bodies[key], i)
        return t["k"] == "ref" and not t.get("mut")

    # -- writes
    def effects(self, key):
        body = self.prog.bodies[key]
        try:
            eng, outs = summarise(self.pkg, self.cfg, key)
        except Imprecise as e:
            self.obs.add("effects", key, body["span"], UNK, "not analysed: %s" % e)
            return
        ps = params(body)
        sh = {p: i for i, p in enumerate(ps) if self.shared(key, i)}
        n, bad = 0, False
        for s, v in outs:
            for e in allevents(s.events()):
                tgt = None
                if e.k == "w":
                    tgt = e.a[0]
                elif e.k in ("push", "pop", "setlen", "clear", "truncate", "drainall", "hpush", "hpop", "sort"):
                    tgt = place_of(e.a[0])[0] if isinstance(e.a[0], T) else None
                if tgt is None:
                    continue
                n += 1
                r = self.root(tgt)
                if r in sh:
                    bad = True
                    self.obs.add("effects", key, e.sp, BAD, "a query writes to memory reached through its parameter %s" % show(r, 3))
                elif r is not None and r.op == "static":
                    self.obs.add("effects", key, e.sp, UNK, "a query writes to a static")
        self.obs.note("writes of queries", n)
        if not bad:
            self.obs.add("effects", key, body["span"], OK_, "%d writes, none through a shared reference" % n)

    def root(self, t):
        """the parameter (or static) whose memory the cell belongs to"""
        for _ in range(60):
            if t.op in ("sym", "static"):
                return t
            if t.op in ("D", "deref", "fld", "idx", "ref", "ptradd", "offset", "cast", "elem") and t.a:
                nxt = None
                for x in t.a:
                    if isinstance(x, T):
                        nxt = x
                        break
                if nxt is None:
                    return None
                t = nxt
                continue
            return None
        return None
