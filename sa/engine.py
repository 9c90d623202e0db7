"""Value-flow analysis of MIR: a forward dataflow analysis in the domain of value numbers
(terms.py), with trace partitioning at branches, inlining of local calls, and loop summaries
(structural phis, induction variables and closed forms for reductions).  It never runs code and
calls no solver; every result is a table of value numbers, guards and effects per control path.
"""
import re
import sys

from terms import *
import terms as TM

sys.setrecursionlimit(20000)


class Imprecise(Exception):
    pass


class Ev:
    """An event of a path: guard, write, push, loop, call ..."""
    __slots__ = ("k", "a", "fn", "sp", "env")

    def __init__(self, k, a, fn, sp, env=None):
        self.k = k
        self.a = a
        self.fn = fn
        self.sp = sp
        self.env = env   # snapshot of memory just before the event

    def __repr__(self):
        return "%s%s @%s" % (self.k, tuple(self.a), self.sp)


class State:
    __slots__ = ("env", "facts", "log", "stack")

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.log = None
        self.stack = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.log = self.log
        s.stack = self.stack
        return s

    def events(self, until=None):
        r = []
        l = self.log
        while l is not until and l is not None:
            r.append(l[1])
            l = l[0]
        r.reverse()
        return r


class Panic:
    def __init__(self, msg, kind="panic"):
        self.msg = msg
        self.kind = kind

    def __repr__(self):
        return "Panic(%s)" % self.msg


class Path:
    """A control path: its events, its final state and how it ends."""

    def __init__(self, kind, state, events, extra=None, fn=None, sp=None):
        self.kind = kind
        self.state = state
        self.events = events
        self.extra = extra
        self.fn = fn
        self.sp = sp

    def guards(self):
        return [(e.a[0], e.a[1]) for e in self.events if e.k == "guard"]


class Phi:
    def __init__(self, sym, cell, path, init):
        self.sym = sym
        self.cell = cell
        self.path = path
        self.init = init
        self.nexts = []
        self.val = sym
        self.step = None

    def __repr__(self):
        return "%s@%s%s init=%s nexts=%s" % (self.sym, self.cell, list(self.path), self.init, self.nexts)


class Loop:
    def __init__(self, lid, kind, fn, sp, par):
        self.id = lid
        self.kind = kind
        self.fn = fn
        self.sp = sp
        self.par = par
        self.phis = []
        self.backs = []
        self.exits = []
        self.guard = None  # (iv sym, bound, lo, hi, bv, submap)
        self.closed = {}

    def phi_of(self, sym):
        for p in self.phis:
            if p.sym is sym:
                return p


TRANSPARENT_ADT = {"ordered_float::NotNan", "alloc::boxed::Box", "core::mem::maybe_uninit::MaybeUninit",
                   "core::mem::manually_drop::ManuallyDrop", "sync_unsafe_cell::SyncUnsafeCell", "core::cell::UnsafeCell",
                   "core::ptr::unique::Unique", "core::ptr::non_null::NonNull", "core::pin::Pin",
                   "std::sync::poison::rwlock::RwLock", "std::sync::poison::mutex::Mutex"}


class Program:
    def __init__(self, crates):
        """crates: dict name -> facts json"""
        self.bodies = {}
        self.adts = {}
        self.impls = []
        for cn, cr in crates.items():
            types = cr["types"]
            for b in cr["bodies"]:
                b["types"] = types
                b["crate"] = cn
                self.bodies[b["key"]] = b
            for a in cr["adts"]:
                a["types"] = types
                self.adts[a["path"]] = a
            for im in cr["impls"]:
                im["crate"] = cn
                self.impls.append(im)
        self._cfg = {}
        self._scc = None

    # --- call graph -----------------------------------------------------------------------
    def callees(self, b):
        res = set()
        for bb in b.get("bbs") or []:
            if bb["cleanup"]:
                continue

            def opk(o):
                if isinstance(o, dict) and o.get("k") == "const" and "fn" in o:
                    fn = o["fn"]
                    for k in (fn.get("rkey"), fn.get("key")):
                        if k in self.bodies:
                            res.add(k)
                            break
            t = bb["t"]
            if t[0] == "call":
                opk(t[1])
                for a in t[2]:
                    opk(a)
            for s in bb["s"]:
                if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                    res.add(s[2][1][1])
                if s[0] == "=":
                    for o in s[2][1:]:
                        for x in o if isinstance(o, list) else (o,):
                            opk(x)
        return res

    def sccs(self):
        if self._scc is not None:
            return self._scc
        g = {k: self.callees(b) for k, b in self.bodies.items()}
        index = {}
        low = {}
        on = set()
        st = []
        comp = {}
        n = [0]

        def go(v):
            index[v] = low[v] = n[0]
            n[0] += 1
            st.append(v)
            on.add(v)
            for w in g.get(v, ()):
                if w not in self.bodies:
                    continue
                if w not in index:
                    go(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                c = set()
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.add(w)
                    if w == v:
                        break
                rec = len(c) > 1 or v in g.get(v, ())
                for w in c:
                    comp[w] = frozenset(c) if rec else None
        for v in sorted(self.bodies):
            if v not in index:
                go(v)
        self._scc = comp
        self.graph = g
        return comp

    # --- loops ----------------------------------------------------------------------------
    def cfg(self, body):
        key = body.get("key"), id(body)
        if key in self._cfg:
            return self._cfg[key]
        bbs = body["bbs"]
        n = len(bbs)
        succ = [[] for _ in range(n)]
        for i, bb in enumerate(bbs):
            t = bb["t"]
            k = t[0]
            if bb["cleanup"]:
                continue
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            succ[i] = s
        # dominators
        order = []
        seen = set()

        def dfs(v):
            stack = [(v, iter(succ[v]))]
            seen.add(v)
            while stack:
                u, it = stack[-1]
                for w in it:
                    if w not in seen:
                        seen.add(w)
                        stack.append((w, iter(succ[w])))
                        break
                else:
                    order.append(u)
                    stack.pop()
        dfs(0)
        rpo = order[::-1]
        pred = [[] for _ in range(n)]
        for u in rpo:
            for w in succ[u]:
                pred[w].append(u)
        dom = {rpo[0]: {rpo[0]}}
        allset = set(rpo)
        for v in rpo[1:]:
            dom[v] = set(allset)
        ch = True
        while ch:
            ch = False
            for v in rpo[1:]:
                ps_ = [dom[p] for p in pred[v]]
                d = set.intersection(*ps_) if ps_ else set()
                d = d | {v}
                if d != dom[v]:
                    dom[v] = d
                    ch = True
        loops = {}
        for u in rpo:
            for w in succ[u]:
                if w in dom[u]:
                    body_ = loops.setdefault(w, {w})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body_:
                            body_.add(x)
                            st.extend(pred[x])
        # blocks from which a loop exit is unavoidable are outside; ok.
        self._cfg[key] = (succ, loops)
        return self._cfg[key]


def canon(fn):
    if fn.get("trait"):
        return fn["trait"].split("::")[-1] + "::" + fn["name"]
    s = fn["path"]
    m = re.search(r"<impl (.*)>::(\w+)$", s)
    if m:
        t = m.group(1)
        t = re.sub(r"^(\*const|\*mut) .*$", r"\1", t)
        if t.startswith("["):
            t = "[T]"
        t = re.sub(r"<.*>$", "", t)
        return t.split("::")[-1] + "::" + m.group(2)
    out = ""
    d = 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
    segs = [x for x in out.split("::") if x]
    return "::".join(segs[-2:])


class Frame:
    __slots__ = ("id", "body", "cenv", "types", "key")


WIDTHS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128}


class Engine:
    def __init__(self, prog, entry_recursion=None):
        self.p = prog
        self.scc = prog.sccs()
        self.nframe = 0
        self.nloop = 0
        self.sp = None
        self.fnkey = None
        self.steps = 0
        self.opaque = {}      # unmodelled library calls met: name -> count
        self.inlined = set()
        self.reccalls = []
        self.arrlen = {}      # slice reference made from an array reference: the length of the array
        self.depth = 0
        self.summarising = None
        self.MAXSTEPS = 2000000
        self.stop_at = ()     # keys not to inline (modelled as summaries)
        self.snap = False
        self.devirt = None    # implementing type assumed behind trait objects
        self.arith = False
        self.strides = False
        self.partial = []      # operations that may panic, outside loops
        self.loopdepth = 0

    # ------------------------------------------------------------------ events / guards
    def log(self, st, k, *a):
        if k == "maypanic" and not self.loopdepth:
            self.partial.append((st.events(), Ev(k, a, self.fnkey, self.sp, None)))
        st.log = (st.log, Ev(k, a, self.fnkey, self.sp, dict(st.env) if self.snap else None))

    def assume(self, st, cond, val):
        """Record cond == val; returns False if it contradicts what is known."""
        cond, val = normguard(cond, val)
        if cond.op == "bool":
            return cond.a[0] == val
        k = self.known(st, cond)
        if k is not None:
            return k == val
        self.log(st, "guard", cond, val)
        self.learn(st, cond, val)
        return True

    def learn(self, st, cond, val):
        st.facts[cond] = val
        if val and cond.op == "and":
            for x in cond.a:
                c, v = normguard(x, True)
                self.learn(st, c, v)
        if not val and cond.op == "or":
            for x in cond.a:
                c, v = normguard(x, False)
                self.learn(st, c, v)

    def known(self, st, cond):
        if cond.op == "bool":
            return cond.a[0]
        f = st.facts
        v = f.get(cond)
        if v is not None:
            return v
        o = cond.op
        if o == "not":
            k = self.known(st, cond.a[0])
            return None if k is None else not k
        if o in ("and", "or"):
            x, y = self.known(st, cond.a[0]), self.known(st, cond.a[1])
            if o == "and":
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        if o in ("lt", "le"):
            a, b = cond.a
            if o == "lt":
                # known a<=b and ...
                if f.get(raw("eq", a, b)) or f.get(raw("eq", b, a)):
                    return False
                if f.get(raw("lt", b, a)) is True or f.get(raw("le", b, a)) is True:
                    return False
                if f.get(raw("le", a, b)) is False:
                    return False
            else:
                if f.get(raw("eq", a, b)) or f.get(raw("eq", b, a)):
                    return True
                if f.get(raw("lt", a, b)) is True:
                    return True
                if f.get(raw("lt", b, a)) is True:
                    return False
            # constants
            if b.op == "int" or a.op == "int":
                r = intrange(f, a if b.op == "int" else b)
                if r is not None:
                    lo, hi = r
                    if b.op == "int":
                        c = b.a[0] - (1 if o == "lt" else 0)
                        if hi is not None and hi <= c:
                            return True
                        if lo is not None and lo > c:
                            return False
                    else:
                        c = a.a[0] + (1 if o == "lt" else 0)
                        if lo is not None and lo >= c:
                            return True
                        if hi is not None and hi < c:
                            return False
        if o == "eq":
            a, b = cond.a
            for x, y in ((a, b), (b, a)):
                if f.get(raw("lt", x, y)) is True:
                    return False
            if b.op == "int":
                r = intrange(f, a)
                if r:
                    lo, hi = r
                    if (lo is not None and lo > b.a[0]) or (hi is not None and hi < b.a[0]):
                        return False
            # a known equal to a different constant
            if num(b) is not None:
                for g, v in f.items():
                    if v and g.op == "eq" and g.a[0] is a and num(g.a[1]) is not None and g.a[1] is not b:
                        return False
        if o == "is":
            v0, k = cond.a
            for j in (0, 1):
                if j != k:
                    x = f.get(raw("is", v0, j))
                    if x is True:
                        return False
            # two-variant enums are switched exhaustively
            x = f.get(raw("is", v0, 1 - k)) if k in (0, 1) else None
            if x is False:
                return True
        return None

    def fork(self, st, cond):
        """[(state, bool)] for the possible outcomes of cond."""
        cond, pol = normguard(cond, True)
        if cond.op == "bool":
            return [(st, cond.a[0] == pol)]
        if cond.op == "ite":
            res = []
            for s1, v in self.fork(st, cond.a[0]):
                for s2, w in self.fork(s1, cond.a[1] if v else cond.a[2]):
                    res.append((s2, w == pol))
            return res
        if cond.op == "and":
            res = []
            for s1, v in self.fork(st, cond.a[0]):
                if not v:
                    res.append((s1, not pol))
                else:
                    for s2, w in self.fork(s1, cond.a[1]):
                        res.append((s2, w == pol))
            return res
        if cond.op == "or":
            res = []
            for s1, v in self.fork(st, cond.a[0]):
                if v:
                    res.append((s1, pol))
                else:
                    for s2, w in self.fork(s1, cond.a[1]):
                        res.append((s2, w == pol))
            return res
        k = self.known(st, cond)
        if k is not None:
            return [(st, k == pol)]
        a = st
        b = st.copy()
        res = []
        if self.assume(a, cond, True):
            res.append((a, pol))
        if self.assume(b, cond, False):
            res.append((b, not pol))
        return res

    # ------------------------------------------------------------------ memory
    def initial(self, cell):
        if cell.op == "D":
            return raw("deref", cell.a[0])
        if cell.op == "H":
            return raw("undef", cell)
        return raw("undef", cell)

    def get(self, st, cell):
        v = st.env.get(cell)
        return self.initial(cell) if v is None else v

    def read(self, st, cell, projs):
        v = self.get(st, cell)
        for p in projs:
            v = project(v, p)
        return v

    def load(self, st, ptr):
        c, p = place_of(ptr)
        return self.read(st, c, p)

    def write(self, st, cell, projs, val, log=True):
        st.env[cell] = update(self.get(st, cell), list(projs), val)
        if log and cell.op != "L":
            self.log(st, "w", cell, tuple(projs), val)

    def ptruse(self, st, ptr):
        """a raw pointer is dereferenced"""
        if ptr.op == "ref" and ptr.a[-1].op == "pi":
            v = self.read(st, ptr.a[0], ptr.a[1:-1])
            i = ptr.a[-1].a[0]
            cond = lt(i, len_(v))
            self.log(st, "unsafe", "pointer dereference", cond, self.known(st, cond), v, i)

    def storep(self, st, ptr, val):
        c, p = place_of(ptr)
        self.write(st, c, p, val)

    def alloc(self, st, val):
        c = raw("H", uniq())
        st.env[c] = val
        return mkref(c, ())

    def deep(self, st, v, limit=6):
        """Follow references."""
        while limit and v.op == "ref":
            v = self.load(st, v)
            limit -= 1
        return v

    # ------------------------------------------------------------------ places / operands
    def place(self, fr, st, pl):
        cell = raw("L", fr.id, pl[0])
        projs = []
        ty = fr.body["locals"][pl[0]]
        types = fr.types
        var = None
        for e in pl[1]:
            k = e[0]
            if k == "*":
                t = types[ty]
                if t["k"] in ("ref", "ptr"):
                    v = self.read(st, cell, projs)
                    if t["k"] == "ptr":
                        self.ptruse(st, v)
                    c, p = place_of(v)
                    cell, projs = c, list(p)
                    ty = t["to"]
                elif t["k"] == "adt":  # Box
                    ty = t["args"][0].get("t") if t["args"] else ty
                else:
                    v = self.read(st, cell, projs)
                    c, p = place_of(v)
                    cell, projs = c, list(p)
                    ty = None
            elif k == "f":
                owner = e[3]
                if owner in TRANSPARENT_ADT:
                    pass
                else:
                    projs.append(pf(var, e[1]))
                ty = e[4]
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                i = self.read(st, raw("L", fr.id, e[1]), ())
                projs.append(pi(i))
                ty = self.elem(types, ty)
            elif k == "ci":
                if e[2]:
                    n = len_(self.read(st, cell, projs))
                    projs.append(pi(sub(n, I(e[1]))))
                else:
                    projs.append(pi(I(e[1])))
                ty = self.elem(types, ty)
            elif k == "sub":
                n = len_(self.read(st, cell, projs))
                hi = sub(n, I(e[2])) if e[3] else I(e[2])
                projs.append(ps(I(e[1]), hi))
            else:
                raise Imprecise("projection %s" % k)
            if ty is None:
                ty = None
        r = mkref(cell, projs)
        c, p = place_of(r)
        return c, list(p), ty

    def elem(self, types, ty):
        if ty is None:
            return None
        t = types[ty]
        return t.get("of")

    def const(self, fr, st, o):
        if "fn" in o:
            fn = o["fn"]
            return raw("fn", fnid(fn), self.cargs(fr, fn))
        if "param" in o:
            return fr.cenv.get(o["param"]) or raw("cparam", o["param"])
        ty = fr.types[o["ty"]] if "ty" in o and o["ty"] is not None else {"k": "other"}
        if "promoted" in o:
            b = dict(fr.body)
            pb = fr.body["promoted"][o["promoted"]]
            pb = dict(pb)
            pb.setdefault("types", fr.types)
            pb.setdefault("key", fr.key + "::promoted")
            pb.setdefault("promoted", [])
            outs = self.exec_body(pb, fr.cenv, [], st, True)
            if len(outs) != 1:
                raise Imprecise("promoted")
            return outs[0][1]
        if "bits" in o:
            n = int(o["bits"])
            return self.scalar(ty, n, o.get("size", 8))
        if "static" in o:
            return mkref(raw("static", o["static"]), ())
        if o.get("zst"):
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "closure":
                return agg(("closure", ty["key"], ()), 0)
            if ty["k"] == "adt":
                return agg(ty["path"], 0)
            if ty["k"] == "fndef":
                return raw("fn", str(ty.get("s")), ())
            return UNIT
        if "uneval" in o:
            k = o.get("unevalkey")
            if k in self.p.bodies and self.p.bodies[k].get("bbs"):
                outs = self.exec_body(self.p.bodies[k], fr.cenv, [], st)
                if len(outs) == 1 and not isinstance(outs[0][1], Panic):
                    return outs[0][1]
            return raw("constant", str(o["uneval"]))
        s = o.get("s")
        if ty["k"] == "ref" and fr.types[ty["to"]]["k"] == "str":
            return raw("strref", str(s))
        return raw("constant", str(s))

    def scalar(self, ty, n, size):
        k = ty["k"]
        if k == "bool":
            return B(bool(n))
        if k == "float":
            import struct
            if size == 4:
                x = struct.unpack("<f", struct.pack("<I", n))[0]
            elif size == 8:
                x = struct.unpack("<d", struct.pack("<Q", n))[0]
            else:
                return raw("constant", n)
            if x != x:
                return F("nan")
            if x in (float("inf"), float("-inf")):
                return F("inf" if x > 0 else "-inf")
            return F(x)
        if k == "int":
            if ty["s"].startswith("i"):
                bits = size * 8
                if n >= 1 << (bits - 1):
                    n -= 1 << bits
            return I(n)
        if k == "char":
            return raw("char", n)
        if k == "adt":
            # transparent newtype over a scalar
            return raw("constant", "%s(%d)" % (ty["s"], n))
        return I(n)

    def operand(self, fr, st, o):
        k = o["k"]
        if k in ("copy", "move"):
            c, p, _ = self.place(fr, st, o["p"])
            return self.read(st, c, p)
        if k == "const":
            return self.const(fr, st, o)
        if k == "rtcheck":
            return FALSE
        raise Imprecise("operand %s" % k)

    def cargs(self, fr, fn):
        """const generic values of a call, as a tuple of (index, term)"""
        args = fn.get("rargs") if fn.get("rkey") in self.p.bodies else fn["args"]
        res = []
        for i, a in enumerate(args or []):
            if "c" in a:
                c = a["c"]
                if c.get("k") == "param":
                    v = fr.cenv.get(c["name"]) or raw("cparam", c["name"])
                elif "bits" in c:
                    v = self.scalar(fr.types[c["ty"]] if "ty" in c else {"k": "int", "s": "usize"}, int(c["bits"]), c.get("size", 8))
                elif "v" in c:
                    v = I(int(c["v"]))
                elif isinstance(c.get("value"), (int, bool)):
                    v = B(c["value"]) if isinstance(c["value"], bool) else I(c["value"])
                else:
                    v = raw("constarg", str(c))
                res.append((i, v))
        return tuple(res)

    def cenv_of(self, body, cargs):
        env = {}
        gens = body.get("generics") or []
        for i, v in cargs:
            if i < len(gens) and gens[i][1] == "const":
                env[gens[i][0]] = v
        return env

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, destty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref" or k == "rawptr":
            pl = rv[2]
            c, p, _ = self.place(fr, st, pl)
            return mkref(c, p)
        if k == "bin":
            a = self.operand(fr, st, rv[2])
            b = self.operand(fr, st, rv[3])
            if self.arith and rv[1] in ("Sub", "SubWithOverflow"):
                ty = self.optype(fr, rv[2])
                if ty["k"] == "int" and ty["s"].startswith("u") and le(b, a) is not TRUE:
                    self.log(st, "maypanic", "an unsigned subtraction", le(b, a))
            if self.arith and rv[1] in ("Shl", "Shr", "ShlWithOverflow", "ShrWithOverflow") and b.op != "int":
                w = WIDTHS.get(self.optype(fr, rv[2])["s"])
                if w and not has(b, lambda x: x.op == "cparam" or x.op == "bvar") and not b.ph:
                    self.log(st, "maypanic", "a shift", lt(b, I(w)))
            r = self.binop(rv[1], a, b, st)
            if self.arith and rv[1] in ("Add", "AddWithOverflow", "Mul", "MulWithOverflow") and (a.op == "sym" or b.op == "sym") and not (a.ph or b.ph):
                ty = self.optype(fr, rv[2])
                if ty["k"] == "int" and ty["s"] in ("usize", "u64"):
                    v = r if r.op != "agg" else r.a[2]
                    if not has(v, lambda x: x.op in ("cparam", "havoc")):
                        self.log(st, "maypanic", "an addition" if rv[1][0] == "A" else "a multiplication", lt(v, I(1 << 64)))
            return r
        if k == "un":
            a = self.operand(fr, st, rv[2])
            if rv[1] == "Not":
                if self.optype(fr, rv[2])["k"] == "bool":
                    return not_(a)
                return raw("bitnot", a)
            if rv[1] == "Neg":
                return mk("neg", a)
            if rv[1] == "PtrMetadata":
                return len_(self.load(st, a))
            return raw("un" + rv[1], a)
        if k == "cast":
            return self.cast(fr, st, rv[1], self.operand(fr, st, rv[2]), self.optype(fr, rv[2]), fr.types[rv[3]])
        if k == "discr":
            c, p, ty = self.place(fr, st, rv[1])
            v = self.read(st, c, p)
            return raw("discr", v)
        if k == "agg":
            kind = rv[1]
            vals = [self.operand(fr, st, o) for o in rv[2]]
            if kind[0] == "tuple":
                return tup(*vals)
            if kind[0] == "array":
                if vals and all(v is vals[0] for v in vals) and len(vals) > 8:
                    return raw("repeat", vals[0], I(len(vals)))
                return agg("array", 0, *vals)
            if kind[0] == "closure":
                return agg(("closure", kind[1], tuple(sorted(fr.cenv.items(), key=lambda x: x[0]))), 0, *vals)
            if kind[0] == "adt":
                if kind[1] in TRANSPARENT_ADT and len(vals) == 1:
                    return vals[0]
                # struct update order is the declaration order already
                return agg(kind[1], kind[2], *vals)
            if kind[0] == "rawptr":
                return vals[0]
            return raw("aggother", str(kind), *vals)
        if k == "repeat":
            v = self.operand(fr, st, rv[1])
            n = rv[2]
            if n.get("k") == "param":
                c = fr.cenv.get(n["name"]) or raw("cparam", n["name"])
            else:
                b = n.get("bits") or n.get("v")
                c = I(int(b)) if b is not None else raw("constarg", str(n))
            return raw("repeat", v, c)
        if k == "copyforderef":
            return self.operand(fr, st, {"k": "copy", "p": rv[1]})
        return fresh("rvalue %s" % (rv[1] if len(rv) > 1 else k))

    def optype(self, fr, o):
        if o["k"] in ("copy", "move"):
            _, _, ty = self.place_ty(fr, o["p"])
            return fr.types[ty] if ty is not None else {"k": "other", "s": ""}
        if o.get("ty") is not None:
            return fr.types[o["ty"]]
        return {"k": "other", "s": ""}

    def place_ty(self, fr, pl):
        ty = fr.body["locals"][pl[0]]
        for e in pl[1]:
            if ty is None:
                break
            t = fr.types[ty]
            if e[0] == "*":
                ty = t["to"] if "to" in t else (t["args"][0].get("t") if t.get("args") else None)
            elif e[0] == "f":
                ty = e[4]
            elif e[0] in ("i", "ci"):
                ty = t.get("of")
        return None, None, ty

    def binop(self, op, a, b, st):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        m = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "Lt": "lt", "Le": "le", "Eq": "eq"}
        if op in m:
            return mk(m[op], a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Ne":
            return not_(eq(a, b))
        if op == "Shl":
            return mul(a, pow_(I(2), b))
        if op == "Shr":
            return div(a, pow_(I(2), b))
        if op == "BitAnd":
            if a.op in LOGIC or b.op in LOGIC:
                return and_(a, b)
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and y.a[0] == 1:
                    return rem(x, I(2))
                # x & (1 << i): compared with 0 below
                if y.op == "pow" and y.a[0] is I(2):
                    return mul(rem(div(x, y), I(2)), y)
            return raw("bitand", *sorted((a, b), key=lambda t: t.id))
        if op == "BitOr":
            if a.op in LOGIC or b.op in LOGIC:
                return or_(a, b)
            return raw("bitor", *sorted((a, b), key=lambda t: t.id))
        if op == "BitXor":
            if a.op in LOGIC or b.op in LOGIC:
                return not_(eq(a, b))
            return raw("bitxor", *sorted((a, b), key=lambda t: t.id))
        if op == "Offset":
            return self.ptradd(a, b)
        if op == "Cmp":
            return raw("cmp", a, b)
        return raw("bin" + op, a, b)

    def ptradd(self, p, n):
        if p.op == "ref" and p.a[-1].op == "pi" and len(p.a) > 1:
            return mkref(p.a[0], list(p.a[1:-1]) + [pi(add(p.a[-1].a[0], n))])
        if p.op == "ref" and p.a[-1].op == "ps":
            return mkref(p.a[0], list(p.a[1:-1]) + [pi(add(p.a[-1].a[0], n))])
        if n is ZERO:
            return p
        if p.op == "ptradd":
            return self.ptradd(p.a[0], add(p.a[1], n))
        if p.op == "ref":
            return mkref(p.a[0], list(p.a[1:]) + [pi(n)])
        return raw("ptradd", p, n)

    def cast(self, fr, st, kind, v, src, dst):
        if kind.startswith("IntToInt"):
            s, d = src.get("s", ""), dst.get("s", "")
            bits = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}
            if src["k"] == "bool":
                return ite(v, ONE, ZERO)
            if d in bits and bits[d] < bits.get(s, 64) and v.op not in ("int", "cparam") and v.op != "bit":
                return raw("trunc", d, v)
            return v
        if kind.startswith("IntToFloat"):
            if v.op == "int":
                return F(float(v.a[0]))
            return raw("tofloat", v)
        if kind.startswith("FloatToFloat"):
            if dst.get("s") == "f32" and src.get("s") == "f64":
                return raw("narrow", v)
            return v
        if kind.startswith("FloatToInt"):
            return raw("toint", v)
        if "to" in src and "to" in dst and True:
            x, y = fr.types[src["to"]], fr.types[dst["to"]]
            if x["k"] == "array" and y["k"] not in ("array", "slice"):
                flat = lambda z: re.sub(r"[\w:]*NotNan<(.*)>", r"\1", z)
                if flat(fr.types[x["of"]]["s"]) == flat(y["s"]):
                    c, p = place_of(v)      # a pointer to the array, read as a pointer to its first element
                    return mkref(c, list(p) + [pi(ZERO)])
            if x["k"] == "array" and y["k"] == "slice":
                l = x.get("len")
                if isinstance(l, dict) and l.get("k") == "param":
                    self.arrlen[v] = fr.cenv.get(l["name"]) or raw("cparam", l["name"])
                elif isinstance(l, dict) and (l.get("bits") or l.get("v")) is not None:
                    self.arrlen[v] = I(int(l.get("bits") or l.get("v")))
        return v

    # ------------------------------------------------------------------ bodies
    def exec_body(self, body, cenv, args, st, keep=False):
        """[(state, value | Panic)]"""
        fr = Frame()
        self.nframe += 1
        fr.id = self.nframe
        fr.body = body
        fr.cenv = cenv
        fr.types = body["types"]
        fr.key = body["key"]
        sv = (self.fnkey, self.sp)
        self.fnkey = body["key"]
        self.depth += 1
        if self.depth > 60:
            raise Imprecise("call depth")
        for i, a in enumerate(args):
            st.env[raw("L", fr.id, i + 1)] = a
        try:
            outs = self.run(fr, 0, st, None, None)
        finally:
            self.depth -= 1
        self.fnkey, self.sp = sv
        res = []
        for kind, s, extra in outs:
            if kind == "ret":
                v = s.env.get(raw("L", fr.id, 0))
                if v is None:
                    v = UNIT
                if not keep:
                    self.pop_frame(s, fr)
                res.append((s, v))
            elif kind == "panic":
                res.append((s, extra))
        return res

    def pop_frame(self, s, fr):
        # locals of the frame stay reachable only through escaped references (none in safe MIR)
        for c in [c for c in s.env if c.op == "L" and c.a[0] == fr.id]:
            del s.env[c]

    def run(self, fr, bb, st, header, inside):
        """Execute from bb until leaving `inside` (a loop's blocks) or reaching `header` again."""
        res = []
        succ, loops = self.p.cfg(fr.body)
        work = [(bb, st, True)]
        while work:
            bb, st, first = work.pop()
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise Imprecise("too many steps")
            if not first:
                if header is not None and bb == header:
                    res.append(("back", st, None))
                    continue
                if inside is not None and bb not in inside:
                    res.append(("exit", st, bb))
                    continue
            if bb in loops and not (first and header == bb):
                for kind, s, extra in self.mir_loop(fr, bb, loops[bb], st):
                    if kind == "exit":
                        work.append((extra, s, False))
                    else:
                        res.append((kind, s, extra))
                continue
            for kind, s, extra in self.block(fr, bb, st):
                if kind == "go":
                    work.append((extra, s, False))
                else:
                    res.append((kind, s, extra))
        return res

    def mir_loop(self, fr, h, blocks, st):
        bb = fr.body["bbs"][h]

        def step(s):
            self.fnkey = fr.key
            return self.run(fr, h, s, h, blocks)
        return self.summarise(st, step, "mir", fr.key, bb["sp"], False)

    def block(self, fr, bi, st):
        bb = fr.body["bbs"][bi]
        self.fnkey = fr.key
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                self.sp = s[3] if len(s) > 3 else bb["sp"]
                v = self.rvalue(fr, st, s[2], None)
                c, p, _ = self.place(fr, st, s[1])
                self.write(st, c, p, v)
            elif k == "setdiscr":
                c, p, _ = self.place(fr, st, s[1])
                self.write(st, c, p, fresh("setdiscr"))
            elif k == "intrinsic":
                pass
        self.sp = bb["sp"]
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [("go", st, t[1])]
        if k == "return":
            return [("ret", st, None)]
        if k == "unreachable":
            return []
        if k == "drop":
            c, p, ty = self.place(fr, st, t[1])
            v = self.read(st, c, p)
            self.dropped(st, v)
            return [("go", st, t[2])]
        if k == "switch":
            v = self.operand(fr, st, t[1])
            return self.switch(fr, st, v, t)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            want = t[2]
            res = []
            for s, b in self.fork(st, c):
                if b == want:
                    res.append(("go", s, t[4]))
                else:
                    self.sp = bb["sp"]
                    self.log(s, "panic", "assert:" + str(t[3]))
                    res.append(("panic", s, Panic("assert:" + str(t[3]), "assert")))
            return res
        if k == "call":
            return self.call_term(fr, st, t, bb["sp"])
        if k in ("resume", "abort"):
            return []
        raise Imprecise("terminator %s" % k)

    def dropped(self, st, v):
        if v.op == "agg" and isinstance(v.a[0], str) and v.a[0] == "lockguard":
            self.log(st, "unlock", v.a[2])
        elif v.op == "agg" and v.a[0] == RES or v.op == "agg" and v.a[0] == OPT:
            for x in v.a[2:]:
                self.dropped(st, x)

    def switch(self, fr, st, v, t):
        res = []
        ty = fr.types[t[4]]
        if ty["k"] == "bool" or v.op in LOGIC:
            tgt = {}
            for val, b in t[2]:
                tgt[int(val)] = b
            for s, b in self.fork(st, v):
                res.append(("go", s, tgt.get(int(b), t[3])))
            return res
        cases = [(int(val), b) for val, b in t[2]]
        if v.op == "discr" and v.a[0].op == "ite":
            for s, b in self.fork(st, v.a[0].a[0]):
                res.extend(self.switch(fr, s, raw("discr", v.a[0].a[1] if b else v.a[0].a[2]), t))
            return res
        if v.op == "discr":
            x = v.a[0]
            if x.op == "cmp":
                return self.switch_cmp(fr, st, x, cases, t[3])
            if x.op == "neg" and x.a[0].op == "cmp":
                return self.switch_cmp(fr, st, raw("cmp", x.a[0].a[1], x.a[0].a[0]), cases, t[3])
            cur = st
            live = True
            for val, b in cases:
                cond = is_(x, val)
                forks = self.fork(cur, cond)
                cur = None
                for s, tv in forks:
                    if tv:
                        res.append(("go", s, b))
                    else:
                        cur = s
                if cur is None:
                    live = False
                    break
            if live and fr.body["bbs"][t[3]]["t"][0] != "unreachable":
                res.append(("go", cur, t[3]))
            return res
        if v.op == "cmp":
            return self.switch_cmp(fr, st, v, cases, t[3])
        cur = st
        live = True
        for val, b in cases:
            if ty["k"] == "int" and ty["s"].startswith("i") and val >= 1 << 63:
                val -= 1 << 64
            forks = self.fork(cur, eq(v, I(val)))
            cur = None
            for s, tv in forks:
                if tv:
                    res.append(("go", s, b))
                else:
                    cur = s
            if cur is None:
                live = False
                break
        if live:
            res.append(("go", cur, t[3]))
        return res

    def switch_cmp(self, fr, st, x, cases, other):
        a, b = x.a
        tg = {}
        for val, bb in cases:
            if val > 127:
                val = -1
            tg[val] = bb
        res = []
        cur = st
        for s, v in self.fork(cur, lt(a, b)):
            if v:
                res.append(("go", s, tg.get(-1, other)))
            else:
                for s2, w in self.fork(s, eq(a, b)):
                    res.append(("go", s2, tg.get(0, other) if w else tg.get(1, other)))
        return res

    # ------------------------------------------------------------------ calls
    def call_term(self, fr, st, t, sp):
        fo = t[1]
        args = [self.operand(fr, st, a) for a in t[2]]
        dest, target = t[3], t[4]
        self.sp = sp
        if fo["k"] == "const" and "fn" in fo:
            outs = self.call(fr, st, fo["fn"], args, t)
        else:
            f = self.operand(fr, st, fo)
            outs = self.call_closure(st, f, args)
        res = []
        for s, v in outs:
            self.fnkey = fr.key
            self.sp = sp
            if isinstance(v, Panic):
                res.append(("panic", s, v))
                continue
            if v is RETRY:
                res.append(("go", s, self.cur_block(fr, t)))
                continue
            if target is None:
                continue
            c, p, _ = self.place(fr, s, dest)
            self.write(s, c, p, v)
            res.append(("go", s, target))
        return res

    def cur_block(self, fr, t):
        for i, bb in enumerate(fr.body["bbs"]):
            if bb["t"] is t:
                # the `next` call of a filtering iterator is repeated: it must be the loop header
                succ, loops = self.p.cfg(fr.body)
                if i in loops:
                    return i
                for h, bl in loops.items():
                    if i in bl and succ[h] == [i]:
                        return h
                raise Imprecise("filtered next outside a loop")
        raise Imprecise("block")

    def local_body(self, fn):
        for k in (fn.get("rkey"), fn.get("key")):
            if k in self.p.bodies and self.p.bodies[k].get("bbs"):
                return self.p.bodies[k]
        return None

    def call(self, fr, st, fn, args, t):
        from models import MODELS
        b = self.local_body(fn)
        if b is None and self.devirt and fn.get("trait"):
            b = self.devirtualised(fr, fn)
        name = canon(fn)
        if b is not None and not (name in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and len(args) == 2):
            return self.call_local(fr, st, b, self.cargs(fr, fn), args)
        h = MODELS.get(name)
        if h is not None:
            r = h(self, fr, st, fn, args, t)
            if r is not NotImplemented:
                return r
        return self.opaque_call(fr, st, name, fn, args, t)

    def devirtualised(self, fr, fn):
        """the method of the implementing type assumed behind trait objects"""
        a = fn.get("args") or [{}]
        if a[0].get("t") is None or fr.types[a[0]["t"]]["k"] != "dyn":
            return None
        c = [b for b in self.p.bodies.values() if b.get("impl_trait") == fn["trait"] and b.get("name") == fn["name"] and b.get("bbs")
             and b["types"][b["impl_self"]]["s"] == self.devirt]
        return c[0] if len(c) == 1 else None

    def call_local(self, fr, st, b, cargs, args):
        key = b["key"]
        cenv = self.cenv_of(b, cargs)
        comp = self.scc.get(key)
        if key in self.stop_at or (comp and (self.in_scc_entry(key, comp))):
            return self.reccall(st, b, cenv, args)
        self.inlined.add(key)
        old = st.stack
        st.stack = old + ((key, self.sp),)
        outs = self.exec_body(b, cenv, args, st)
        for s, _ in outs:
            s.stack = old
        return outs

    def in_scc_entry(self, key, comp):
        """Is this call to be summarised instead of inlined?  Inside the summary of an SCC, calls
        back to its entry are; outside, every call into an SCC is."""
        if self.summarising in comp:
            return key == self.summarising
        return True

    def reccall(self, st, b, cenv, args):
        n = uniq()
        ce = tuple(sorted(((k, v) for k, v in cenv.items()), key=lambda x: x[0]))
        self.reccalls.append((b["key"], ce))
        pre = [self.deep(st, a) if a.op == "ref" else self.load(st, a) if b["types"][b["locals"][i + 1]]["k"] == "ref" else a
               for i, a in enumerate(args)]
        self.log(st, "reccall", b["key"], tuple(args), n, ce, tuple(pre))
        for i, a in enumerate(args):
            ty = b["types"][b["locals"][i + 1]]
            if ty["k"] == "ref" and ty.get("mut"):
                c, p = place_of(a)
                self.write(st, c, p, raw("post", n, i), log=False)
            elif ty["k"] in ("ref", "adt") and self.sharedcell(b["types"], ty):
                while a.op == "ref" and self.load(st, a).op == "ref":
                    a = self.load(st, a)
                if a.op in ("ref", "sym"):
                    c, p = place_of(a)
                    self.write(st, c, p, raw("post", n, i), log=False)
        ret = raw("callret", n)
        rt = b["types"][b["locals"][0]]
        if rt["k"] == "tuple":
            ret = tup(*[raw("fld", ret, None, i) for i in range(len(rt["of"]))]) if rt["of"] else UNIT
        return [(st, ret)]

    def sharedcell(self, types, ty, n=4):
        """&/Arc around a lock: its content may change during a call"""
        while n:
            n -= 1
            if ty["k"] == "ref":
                ty = types[ty["to"]]
            elif ty["k"] == "adt" and ty["path"].split("::")[-1] in ("Arc", "Rc"):
                ts = [a["t"] for a in ty["args"] if isinstance(a, dict) and a.get("t") is not None]
                if not ts:
                    return False
                ty = types[ts[0]]
            else:
                return ty["k"] == "adt" and ty["path"].split("::")[-1] in ("RwLock", "Mutex")
        return False

    def opaque_call(self, fr, st, name, fn, args, t):
        self.opaque[name] = self.opaque.get(name, 0) + 1
        vals = []
        for a, o in zip(args, t[2]):
            ty = self.optype(fr, o)
            if ty["k"] == "ref" and ty.get("mut"):
                pass
            vals.append(self.deep(st, a))
        self.log(st, "opaque", name, tuple(args), fn["path"])
        n = None
        for a, o in zip(args, t[2]):
            ty = self.optype(fr, o)
            if ty["k"] == "ref" and ty.get("mut"):
                c, p = place_of(a)
                self.write(st, c, p, fresh("opaque " + name), log=False)
                n = uniq()
        if t[4] is None:
            self.log(st, "panic", name)
            return [(st, Panic(name))]
        return [(st, raw("call", name, *([] if n is None else [I(n)]), *vals))]

    def call_closure(self, st, f, args):
        """Call a function value with (already spread) args."""
        g = f
        lim = 4
        while g.op == "ref" and lim:
            g = self.load(st, g)
            lim -= 1
        if g.op == "agg" and isinstance(g.a[0], tuple) and g.a[0][0] == "closure":
            key = g.a[0][1]
            b = self.p.bodies.get(key)
            if b is None or not b.get("bbs"):
                return [(st, fresh("closure %s" % key))]
            cenv = dict(g.a[0][2])
            t1 = b["types"][b["locals"][1]]
            if t1["k"] == "ref":
                if f.op == "ref" and not (self.load(st, f).op == "ref"):
                    selfv = f
                else:
                    selfv = f
                    while selfv.op == "ref" and self.load(st, selfv).op == "ref":
                        selfv = self.load(st, selfv)
                    if selfv.op != "ref":
                        selfv = self.alloc(st, g)
            else:
                selfv = g
            self.inlined.add(key)
            comp = self.scc.get(key)
            if key == self.summarising:
                return self.reccall(st, b, cenv, [selfv] + list(args))
            old = st.stack
            st.stack = old + ((key, self.sp),)
            outs = self.exec_body(b, cenv, [selfv] + list(args), st)
            for s, _ in outs:
                s.stack = old
            return outs
        if g.op == "fn":
            fid, cargs = g.a
            return self.call_fnid(st, fid, cargs, args)
        self.opaque["fnvalue"] = self.opaque.get("fnvalue", 0) + 1
        self.log(st, "opaque", "fnvalue", tuple(args), str(g))
        return [(st, raw("call", "fnvalue", g, *args))]

    def call_fnid(self, st, fid, cargs, args):
        from models import MODELS
        fn = FNTAB[fid]
        b = self.local_body(fn)
        if b is None and self.devirt and fn.get("trait"):
            b = self.devirtualised(fr, fn)
        if b is not None:
            return self.call_local(None, st, b, cargs, args)
        h = MODELS.get(canon(fn))
        if h is not None:
            t = ["call", None, [{"k": "none"}] * len(args), None, 0]
            r = h(self, None, st, fn, args, t)
            if r is not NotImplemented:
                return r
        self.opaque[canon(fn)] = self.opaque.get(canon(fn), 0) + 1
        return [(st, raw("call", canon(fn), *args))]

    # ------------------------------------------------------------------ loops
    def summarise(self, st0, step, kind, fn, sp, par, info=None):
        """step(state) -> [(kind, state, extra)], kind 'back' for the next iteration."""
        self.nloop += 1
        lid = self.nloop
        rec = Loop(lid, kind, fn, sp, par)
        base = (st0.log, None)
        phis = {}     # (cell, path) -> Phi
        rounds = 0
        while True:
            rounds += 1
            if rounds > 40:
                raise Imprecise("loop does not stabilise")
            st = st0.copy()
            for (cell, path), ph in phis.items():
                st.env[cell] = setpath(self.get(st, cell), path, ph.val)
            mark = ("mark",)
            st.log = (None, Ev("mark", (lid,), fn, sp))
            m0 = st.log
            hv = dict(st.env)
            self.loopdepth += 1
            outs = step(st)
            self.loopdepth -= 1
            changed = False
            for k, s, extra in outs:
                if k != "back":
                    continue
                for cell in list(s.env):
                    new = s.env[cell]
                    old = hv.get(cell)
                    if old is None:
                        if cell.op != "D":
                            continue
                        old = self.initial(cell)
                        if old.ph and lid in old.ph:
                            continue
                    if new is old:
                        continue
                    for path in diff(old, new):
                        key = (cell, path)
                        if key in phis:
                            continue
                        # a longer phi below / a shorter one above
                        for kk in list(phis):
                            if kk[0] is cell and kk[1][:len(path)] == path:
                                del phis[kk]
                                changed = True
                        if any(kk[0] is cell and path[:len(kk[1])] == kk[1] for kk in phis):
                            continue
                        init = getpath(self.get(st0, cell), path)
                        phis[key] = Phi(raw("phi", lid, len(phis) if rounds == 1 else uniq()), cell, path, init)
                        changed = True
            if changed:
                # earlier relations no longer hold
                for ph in phis.values():
                    ph.val = ph.sym
                continue
            # nexts
            for (cell, path), ph in phis.items():
                ph.nexts = []
                for k, s, extra in outs:
                    if k == "back":
                        ph.nexts.append(getpath(self.get(s, cell), path))
            if self.relate(phis):
                continue
            break
        rec.phis = list(phis.values())
        for k, s, extra in outs:
            p = Path(k, s, s.events(m0), extra, fn, sp)
            if k == "back":
                rec.backs.append(p)
            else:
                rec.exits.append(p)
        self.closed_forms(rec, st0)
        res = []
        for i, p in enumerate(rec.exits):
            s = p.state.copy()
            evs = p.events
            normal = p.kind == "exit" and rec.guard is not None and self.is_normal_exit(rec, p)
            log = (st0.log, Ev("loop", (rec, i), fn, sp, dict(st0.env) if self.snap else None))
            for e in evs:
                log = (log, e)
            s.log = log
            if normal and rec.closed:
                s.env = {c: (subst(v, rec.closed) if (v.ph and lid in v.ph) else v) for c, v in s.env.items()}
                nf = {}
                for c, v in s.facts.items():
                    if c.ph and lid in c.ph:
                        c2, v2 = normguard(subst(c, rec.closed), v)
                        if c2.op != "bool":
                            nf[c2] = v2
                    else:
                        nf[c] = v
                s.facts = nf
            if normal:
                self.forall_facts(rec, s)
            p.normal = normal
            res.append((p.kind, s, p.extra))
        return res

    def relate(self, phis):
        """Merge induction variables that advance together."""
        ivs = []
        for ph in phis.values():
            if ph.val is not ph.sym or not ph.nexts:
                continue
            stp = None
            for n in ph.nexts:
                d = n
                if d.op == "add" and d.a[0] is ph.sym and d.a[1].op == "int":
                    x = d.a[1].a[0]
                else:
                    x = None
                if x is None or (stp is not None and x != stp):
                    stp = None
                    break
                stp = x
            if stp is not None:
                ph.step = stp
                ivs.append(ph)
        merged = False
        for i, ph in enumerate(ivs):
            for main in ivs[:i]:
                if main.val is main.sym and main.step == ph.step:
                    if ph.init is main.init:
                        ph.val = main.sym
                    else:
                        ph.val = add(main.sym, sub(ph.init, main.init))
                    merged = True
                    break
        return merged

    def is_normal_exit(self, rec, p):
        for e in p.events:
            if e.k == "guard":
                c, v = e.a
                return c is rec.guard["cond"] and v is not rec.guard["val"]
        return False

    def closed_forms(self, rec, st0):
        if not rec.backs:
            return
        ivs = [p for p in rec.phis if p.val is p.sym and p.nexts and p.step in (1, -1)
               and all(n.op == "add" and n.a[0] is p.sym and n.a[1].op == "int" and n.a[1].a[0] == p.step for n in p.nexts)]
        g = None
        for p in rec.backs:
            f = None
            for e in p.events:
                if e.k == "guard":
                    f = (e.a[0], e.a[1])
                    break
            if f is None or (g is not None and f != g):
                return
            g = f
        cond, val = g
        c = cond if val else not_(cond)
        iv = bound = None
        for p in ivs:
            if p.step == 1:
                if c.op == "lt" and c.a[0] is p.sym:
                    iv, bound = p, c.a[1]
                elif c.op == "lt" and c.a[0].op == "add" and c.a[0].a[0] is p.sym and c.a[0].a[1].op == "int":
                    iv, bound = p, sub(c.a[1], c.a[0].a[1])
                elif c.op == "le" and c.a[0] is p.sym:
                    iv, bound = p, add(c.a[1], ONE)
                elif c.op == "not" and c.a[0].op == "eq" and p.sym in c.a[0].a:
                    iv = p
                    bound = c.a[0].a[0] if c.a[0].a[1] is p.sym else c.a[0].a[1]
                else:
                    continue
            else:
                if c.op == "lt" and c.a[1] is p.sym:
                    iv, bound = p, c.a[0]
                elif c.op == "not" and c.a[0].op == "eq" and p.sym in c.a[0].a:
                    iv = p
                    bound = c.a[0].a[0] if c.a[0].a[1] is p.sym else c.a[0].a[1]
                else:
                    continue
            if bound.ph and rec.id in bound.ph:
                iv = None
                continue
            break
        if iv is None:
            if self.strides:
                self.strided(rec, c, cond, val)
            return
        b = bv()
        if iv.step == 1:
            lo, hi = iv.init, bound
            ivterm = b
        else:
            lo, hi = bound, iv.init
            ivterm = add(b, ONE)
        rec.guard = dict(cond=cond, val=val, iv=iv, lo=lo, hi=hi, bv=b, ivterm=ivterm)
        closed = {iv.sym: bound}
        ivmap = {iv.sym: ivterm}
        # what a call returns belongs to the iteration
        for bp in rec.backs:
            for e in bp.events:
                if e.k == "reccall":
                    ivmap[raw("callret", e.a[2])] = raw("callret", e.a[2], ivterm)
        for p in rec.phis:
            if p is iv or p.val is not p.sym:
                continue
            if p.step is not None and p in rec.phis and all(
                    n.op == "add" and n.a[0] is p.sym and n.a[1].op == "int" and n.a[1].a[0] == p.step for n in p.nexts):
                # another induction variable with a different step
                cnt = sub(b, lo) if iv.step == 1 else sub(sub(hi, ONE), b)
                ivmap[p.sym] = add(p.init, mul(cnt, I(p.step)))
                closed[p.sym] = add(p.init, mul(sub(hi, lo), I(p.step)))
        # reductions
        todo = [p for p in rec.phis if p.sym not in closed and p.val is p.sym]
        # gate the next values of the paths
        for p in todo:
            gated = self.gate(rec, [e for e in range(len(rec.backs))], p, 1)
            if gated is None:
                continue
            r = self.reduce(rec, p, gated, b, lo, hi, ivmap)
            if r is not None:
                closed[p.sym] = r
        rec.closed = closed
        rec.ivmap = ivmap

    def strided(self, rec, c, cond, val):
        """A counter that advances by the same amount on every round, up to a bound."""
        if c.op != "lt" or c.a[0].op != "phi":
            return
        iv = next((p for p in rec.phis if p.sym is c.a[0] and p.val is p.sym and p.nexts), None)
        if iv is None or c.a[1].ph and rec.id in c.a[1].ph:
            return
        step = None
        for n in iv.nexts:
            d = delta(n, iv.sym)
            if d is None or (d.ph and rec.id in d.ph) or (step is not None and d is not step):
                return
            step = d
        if step.op == "int" and step.a[0] <= 1 or step.op == "flt":
            return
        b = bv()
        span = sub(c.a[1], iv.init)
        m = quotient(span, step)
        if m is None:
            m = div(add(span, sub(step, ONE)), step)
        at = add(iv.init, mul(b, step))
        rec.guard = dict(cond=cond, val=val, iv=None, lo=ZERO, hi=m, bv=b, ivterm=at)
        rec.ivmap = {iv.sym: at}
        rec.closed = {iv.sym: add(iv.init, mul(m, step))}
        for bp in rec.backs:
            for e in bp.events:
                if e.k == "reccall":
                    rec.ivmap[raw("callret", e.a[2])] = raw("callret", e.a[2], at)
        for p in rec.phis:
            if p is not iv and p.val is p.sym and p.step is not None and all(
                    n.op == "add" and n.a[0] is p.sym and n.a[1].op == "int" and n.a[1].a[0] == p.step for n in p.nexts):
                rec.ivmap[p.sym] = add(p.init, mul(b, I(p.step)))
                rec.closed[p.sym] = add(p.init, mul(m, I(p.step)))
        for p in [p for p in rec.phis if p.sym not in rec.closed and p.val is p.sym]:
            gated = self.gate(rec, [e for e in range(len(rec.backs))], p, 1)
            r = self.reduce(rec, p, gated, b, ZERO, m, rec.ivmap) if gated is not None else None
            if r is not None:
                rec.closed[p.sym] = r

    def gate(self, rec, idxs, p, pos):
        """The next value of p as a decision tree over the branch conditions of one iteration."""
        seqs = {i: [e for e in rec.backs[i].events if e.k == "guard"] for i in idxs}

        def go(idxs, pos):
            if len(idxs) == 1:
                return p.nexts[idxs[0]]
            vals = {p.nexts[i].id for i in idxs}
            if len(vals) == 1:
                return p.nexts[idxs[0]]
            # first position where they differ
            pos_ = pos
            while True:
                cur = set()
                for i in idxs:
                    if pos_ >= len(seqs[i]):
                        return None
                    cur.add((seqs[i][pos_].a[0].id, seqs[i][pos_].a[1]))
                if len(cur) > 1:
                    break
                pos_ += 1
            conds = {seqs[i][pos_].a[0].id for i in idxs}
            if len(conds) != 1:
                return None
            c = seqs[idxs[0]][pos_].a[0]
            a = go([i for i in idxs if seqs[i][pos_].a[1]], pos_ + 1)
            b_ = go([i for i in idxs if not seqs[i][pos_].a[1]], pos_ + 1)
            if a is None or b_ is None:
                return None
            return ite(c, a, b_)
        # exits in the middle of an iteration do not matter: on the normal exit all iterations went back
        return go(list(idxs), 0)

    def reduce(self, rec, p, nxt, b, lo, hi, ivmap):
        me = p.sym
        lid = rec.id

        def clean(t):
            """free of loop phis except ivs, after substitution"""
            t = subst(t, ivmap)
            if lid in t.ph:
                return None
            return t
        # sums
        d = delta(nxt, me)
        if d is not None:
            dd = clean(d)
            if dd is not None:
                return add(p.init, mksum(b, lo, hi, dd))
        # min / max
        for op in ("min", "max"):
            f = redop(nxt, me, op)
            if f is not None:
                ff = clean(f)
                if ff is not None:
                    return bind("red", b, lo, hi, op, ff, p.init)
        # bool and/or accumulations
        # vec push
        r = self.push_red(p, nxt, me, b, lo, hi, clean)
        if r is not None:
            return r
        # array updates
        r = self.array_red(rec, p, nxt, me, b, lo, hi, ivmap)
        if r is not None:
            return r
        # value overwritten each iteration: last value
        return None

    def push_red(self, p, nxt, me, b, lo, hi, clean):
        if nxt.op == "vpush" and nxt.a[0] is me:
            e = clean(nxt.a[1])
            if e is not None and p.init.op == "vnew":
                if lo is ZERO:
                    return bind("mapseq", b, lo, hi, e)
                return bind("mapseq", b, lo, hi, e)
        if nxt.op == "ite":
            c, x, y = nxt.a
            cc = None
            if x.op == "vpush" and x.a[0] is me and y is me:
                cc, e = c, x.a[1]
            elif y.op == "vpush" and y.a[0] is me and x is me:
                cc, e = not_(c), y.a[1]
            elif y is me or x is me:
                # nested decision
                flat = flatpush(nxt, me)
                if flat is not None:
                    cc, e = flat
            if cc is not None:
                cc, e = clean(cc), clean(e)
                if cc is not None and e is not None and p.init.op == "vnew":
                    return bind("filtseq", b, lo, hi, cc, e)
        return None

    def array_red(self, rec, p, nxt, me, b, lo, hi, ivmap):
        lid = rec.id
        q = raw("bv", uniq())

        def at(t):
            """element b of the array value t, in terms of old element q"""
            if t is me:
                return q
            if t.op == "store":
                i = subst(t.a[1], ivmap)
                if i is not b:
                    return None
                v = subst(t.a[2], ivmap)
                v = subst(v, {raw("idx", me, b): q})
                if lid in v.ph:
                    return None
                # nested store: only through v's own reads
                if t.a[0] is not me and at(t.a[0]) is None:
                    return None
                return v
            if t.op == "ite":
                c = subst(t.a[0], ivmap)
                c = subst(c, {raw("idx", me, b): q})
                if lid in c.ph:
                    return None
                x, y = at(t.a[1]), at(t.a[2])
                if x is None or y is None:
                    return None
                return ite(c, x, y)
            return None
        v = at(nxt)
        if v is not None:
            body = subst(v, {q: idx(p.init, b)})
            if lo is ZERO and len_(p.init) is hi and p.init.op == "repeat":
                return bind("arrlam", b, lo, hi, body, p.init)
            return bind("arrlam", b, lo, hi, body, p.init)
        # pointwise reduction: next = arrlam(i, op(old[i], f))
        if nxt.op == "arrlam" and nxt.a[4] is me:
            b2, l2, h2, body, _ = open_(nxt)
            for op in ("min", "max", "add"):
                f = redop(body, raw("idx", me, b2), op)
                if f is None:
                    continue
                f = subst(f, ivmap)
                if lid in f.ph:
                    continue
                if op == "add":
                    r = add(idx(p.init, b2), mksum(b, lo, hi, f))
                else:
                    r = bind("red", b, lo, hi, op, f, idx(p.init, b2))
                return bind("arrlam", b2, l2, h2, r, p.init)
        return None

    def forall_facts(self, rec, st):
        """After the normal exit every iteration went back: guards common to all back paths held."""
        g = rec.guard
        common = None
        each = []
        for p in rec.backs:
            s = {(e.a[0], e.a[1]) for e in p.events if e.k == "guard"}
            each.append(s)
            common = s if common is None else common & s
        ts = [c if v else not_(c) for c, v in common or () if c is not g["cond"]]
        # what the back paths do not share, for tests of the kind of a float
        rest = [s - common for s in each]
        if 2 <= len(rest) <= 6 and all(1 <= len(s) <= 4 and all(any(z.op in ("isnan", "isinf") for z in walk(c)) for c, v in s) for s in rest):
            t = None
            for s in rest:
                u = None
                for c, v in sorted(s, key=lambda cv: cv[0].id):
                    w = c if v else not_(c)
                    u = w if u is None else and_(u, w)
                t = u if t is None else or_(t, u)
            ts.append(t)
        for t in ts:
            t = subst(t, rec.ivmap)
            if any(x >= rec.id for x in t.ph):
                continue
            fa = bind("forall", g["bv"], g["lo"], g["hi"], t)
            if st.facts.get(fa) is None:
                st.facts[fa] = True
                self.log(st, "guard", fa, True)


def quotient(n, size):
    """n / size when the form of n shows it to be a multiple"""
    for a, b in ((0, 1), (1, 0)):
        if n.op == "mul" and n.a[a] is size:
            return n.a[b]
    if n.op == "int" and size.op == "int" and n.a[0] % size.a[0] == 0:
        return I(n.a[0] // size.a[0])
    return None


class _Retry:
    def __repr__(self):
        return "RETRY"


RETRY = _Retry()
LOGIC = {"bool", "lt", "le", "eq", "not", "and", "or", "is", "isnan", "isinf", "isneg", "forall", "exists"}
FNTAB = {}


def fnid(fn):
    k = "%s|%s|%s" % (fn.get("rkey") or fn["key"], fn["path"], id(fn["args"]) if fn["args"] else 0)
    FNTAB[k] = fn
    return k


def normguard(c, v):
    while c.op == "not":
        c = c.a[0]
        v = not v
    if c.op == "le":
        # a <= b  <=>  !(b < a)
        c2 = lt(c.a[1], c.a[0])
        if c2.op == "lt" or c2.op == "bool" or c2.op == "not" or c2.op == "eq":
            if c2.op == "le":
                return c2, not v
            if c2.op == "not":
                return normguard(c2, not v)
            return c2, not v
    return c, v


def intrange(f, t):
    if t.op == "int":
        return (t.a[0], t.a[0])
    lo = 0 if nonneg(t) else None
    hi = None
    for g, v in f.items():
        if g.op == "lt":
            a, b = g.a
            if a is t and b.op == "int":
                if v:
                    hi = b.a[0] - 1 if hi is None else min(hi, b.a[0] - 1)
                else:
                    lo = b.a[0] if lo is None else max(lo, b.a[0])
            elif b is t and a.op == "int":
                if v:
                    lo = a.a[0] + 1 if lo is None else max(lo, a.a[0] + 1)
                else:
                    hi = a.a[0] if hi is None else min(hi, a.a[0])
        elif g.op == "eq" and g.a[0] is t and g.a[1].op == "int":
            if v:
                return (g.a[1].a[0], g.a[1].a[0])
            if lo == g.a[1].a[0]:
                lo += 1
    if lo is None and hi is None:
        return None
    return lo, hi


def delta(n, me):
    """n = me + d  ->  d"""
    if n is me:
        return ZERO
    if n.op == "add":
        for x, y in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
            if not contains(y, me):
                d = delta(x, me)
                if d is not None:
                    return add(d, y) if d is not ZERO else y
    if n.op == "sub" and not contains(n.a[1], me):
        d = delta(n.a[0], me)
        if d is not None:
            return sub(d, n.a[1])
    if n.op == "ite" and not contains(n.a[0], me):
        x, y = delta(n.a[1], me), delta(n.a[2], me)
        if x is not None and y is not None:
            if x is ZERO and not intlike(y):
                x = F(0.0)
            if y is ZERO and not intlike(x):
                y = F(0.0)
            return ite(n.a[0], x, y)
    return None


def intlike(t):
    return t.op == "int" or t.op == "ite" and intlike(t.a[1]) and intlike(t.a[2])


def redop(n, me, op):
    """n = op(me, f)  ->  f"""
    if op == "add":
        d = delta(n, me)
        return d
    if n.op == op:
        for x, y in ((n.a[0], n.a[1]), (n.a[1], n.a[0])):
            if x is me and not contains(y, me):
                return y
    return None


def contains(t, me):
    if me.op == "phi":
        if me.a[0] not in t.ph:
            return False
    return any(x is me for x in walk(t))


def flatpush(t, me):
    if t is me:
        return (FALSE, None)
    if t.op == "vpush" and t.a[0] is me:
        return (TRUE, t.a[1])
    if t.op == "ite":
        x, y = flatpush(t.a[1], me), flatpush(t.a[2], me)
        if x is None or y is None:
            return None
        if x[1] is None:
            e = y[1]
        elif y[1] is None or y[1] is x[1]:
            e = x[1]
        else:
            e = ite(t.a[0], x[1], y[1])
        return (or_(and_(t.a[0], x[0]), and_(not_(t.a[0]), y[0])), e)
    return None


def mksum(b, lo, hi, body):
    if body is ZERO or (body.op == "flt" and body.a[0] == 0.0):
        return F(0.0) if body.op == "flt" else ZERO
    if body.op == "int":
        return mul(sub(hi, lo), body)
    return bind("sum", b, lo, hi, body)


# ---- structural paths into values ----------------------------------------------------------------

def stripupd(v):
    ch = {}
    while v.op == "fupd":
        ch.setdefault((v.a[1], v.a[2]), v.a[3])
        v = v.a[0]
    return v, ch


def diff(old, new):
    if old is new:
        return []
    if old.op == "agg" and new.op == "agg" and old.a[:2] == new.a[:2] and len(old.a) == len(new.a):
        res = []
        for i in range(2, len(old.a)):
            for p in diff(old.a[i], new.a[i]):
                res.append((("a", i - 2),) + p)
        return res
    if old.op == "fupd" or new.op == "fupd":
        r1, c1 = stripupd(old)
        r2, c2 = stripupd(new)
        if r1 is r2 and r1.op != "agg":
            res = []
            for k in set(c1) | set(c2):
                x = c1.get(k) or fld(r1, *k)
                y = c2.get(k) or fld(r1, *k)
                for p in diff(x, y):
                    res.append((("u",) + k,) + p)
            return res
    if old.op == "ref" and new.op == "ref" and old.a[0] is new.a[0] and len(old.a) == len(new.a):
        res = []
        for i in range(1, len(old.a)):
            x, y = old.a[i], new.a[i]
            if x is y:
                continue
            if x.op == "pi" and y.op == "pi":
                res.append((("r", i),))
            elif x.op == "ps" and y.op == "ps":
                if x.a[0] is not y.a[0]:
                    res.append((("rlo", i),))
                if x.a[1] is not y.a[1]:
                    res.append((("rhi", i),))
            else:
                return [()]
        return res
    return [()]


def getpath(v, path):
    for p in path:
        if p[0] == "a":
            v = fld(v, None, p[1]) if v.op != "agg" else v.a[2 + p[1]]
        elif p[0] == "u":
            v = fld(v, p[1], p[2])
        elif p[0] == "r":
            v = v.a[p[1]].a[0]
        elif p[0] == "rlo":
            v = v.a[p[1]].a[0]
        elif p[0] == "rhi":
            v = v.a[p[1]].a[1]
    return v


def setpath(v, path, x):
    if not path:
        return x
    p = path[0]
    rest = path[1:]
    if p[0] == "a":
        if v.op != "agg":
            return fupd(v, None, p[1], x if not rest else setpath(fld(v, None, p[1]), rest, x))
        l = list(v.a)
        l[2 + p[1]] = setpath(l[2 + p[1]], rest, x)
        return raw("agg", *l)
    if p[0] == "u":
        return fupd(v, p[1], p[2], setpath(fld(v, p[1], p[2]), rest, x))
    l = list(v.a)
    q = l[p[1]]
    if p[0] == "r":
        l[p[1]] = pi(setpath(q.a[0], rest, x))
    elif p[0] == "rlo":
        l[p[1]] = ps(setpath(q.a[0], rest, x), q.a[1])
    elif p[0] == "rhi":
        l[p[1]] = ps(q.a[0], setpath(q.a[1], rest, x))
    return raw("ref", *l)
