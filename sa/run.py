"""Summaries of functions: symbolic parameters, every control path."""
import sys
import facts
from engine import *
from terms import *

_progs = {}


def program(pkg, feats):
    k = (pkg, tuple(sorted(feats)))
    if k not in _progs:
        _progs[k] = Program(facts.load(pkg, tuple(sorted(feats))))
    return _progs[k]


def params(body):
    names = {}
    for n, pl in body["names"]:
        if not pl[1] and 1 <= pl[0] <= body["argc"]:
            names.setdefault(pl[0], n)
    res = []
    for i in range(1, body["argc"] + 1):
        ty = body["types"][body["locals"][i]]
        n = names.get(i, "a%d" % i)
        if ty["k"] == "int" and ty["s"] == "usize":
            res.append(sym((n, "usize")))
        else:
            res.append(sym(n))
    return res


def summary(prog, key, args=None, cenv=None, entry=None, stop_at=(), snap=False, arith=False, devirt=None, strides=False):
    b = prog.bodies[key]
    eng = Engine(prog)
    eng.stop_at = stop_at
    eng.snap = snap
    eng.arith = arith
    eng.strides = strides
    eng.devirt = devirt
    global last
    last = eng
    comp = eng.scc.get(key)
    if comp:
        eng.summarising = key
    st = State()
    outs = eng.exec_body(b, cenv or {}, args or params(b), st)
    return eng, outs


def show_events(evs, ind=0, out=sys.stdout):
    pad = "  " * ind
    for e in evs:
        if e.k == "loop":
            rec, i = e.a
            out.write("%sLOOP %d %s @%s\n" % (pad, rec.id, rec.kind, e.sp))
            for p in rec.phis:
                out.write("%s  phi %s cell=%s%s init=%s val=%s nexts=%s closed=%s\n" % (pad, p.sym, show(p.cell), list(p.path), show(p.init, 6), show(p.val, 5),
                                                                       [show(n, 6) for n in p.nexts], show(rec.closed.get(p.sym), 7) if rec.closed.get(p.sym) else None))
            for n, p in enumerate(rec.backs):
                out.write("%s  back %d:\n" % (pad, n))
                show_events(p.events, ind + 3, out)
            for n, p in enumerate(rec.exits):
                if n == i:
                    out.write("%s  exit %d (%s) [this]\n" % (pad, n, p.kind))
        elif e.k == "mark":
            pass
        else:
            out.write("%s%s %s @%s\n" % (pad, e.k, ", ".join(show(a, 7) if isinstance(a, T) else str([show(z, 5) if isinstance(z, T) else z for z in a]) if isinstance(a, tuple) else str(a) for a in e.a), e.sp))


def dump(prog, key, **kw):
    eng, outs = summary(prog, key, **kw)
    print("=====", key, "paths", len(outs), "steps", eng.steps, "opaque", eng.opaque)
    for s, v in outs:
        print("--- path ->", v if isinstance(v, Panic) else show(v, 9))
        show_events(s.events(), 1)
    return eng, outs


if __name__ == "__main__":
    prog = program(sys.argv[1], tuple(x for x in sys.argv[2].split(",") if x))
    ks = [k for k in prog.bodies if k.endswith(sys.argv[3]) and prog.bodies[k].get("bbs")]
    for k in ks:
        try:
            dump(prog, k)
        except Imprecise as e:
            print("IMPRECISE", k, e)
