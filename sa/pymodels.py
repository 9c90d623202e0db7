"""Models of the parts of numpy, ndarray and pyo3 that the Python module uses.

An array is a term A (the argument).  rows(A), cols(A), len1(A): its shape; contig(A): its elements lie in memory in
row-major order without gaps; flat(A): the sequence of its elements in that order."""
from terms import *
from models import model, MODELS, place_of, mkref, pi, ps, dval, nonzero
import models


def base(eng, st, a):
    return eng.deep(st, a)


def lenterm(fr, t):
    l = models.lenconst(t)
    if l.op == "cparam":
        return fr.cenv.get(l.a[0]) or l
    return l


def rows(a):
    return raw("rows", a)


def cols(a):
    return raw("cols", a)


def oneD(eng, fr, t, i=0):
    ty = eng.optype(fr, t[2][i])
    while ty["k"] in ("ref", "ptr"):
        ty = fr.types[ty["to"]]
    s = ty.get("s", "")
    return "usize; 1]" in s


@model("ArrayBase::shape", "PyArray::shape")
def _shape(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    if oneD(eng, fr, t):
        return [(st, eng.alloc(st, agg("array", 0, raw("len1", a))))]
    return [(st, eng.alloc(st, agg("array", 0, rows(a), cols(a))))]


@model("ArrayBase::dim")
def _dim(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    return [(st, raw("len1", a) if oneD(eng, fr, t) else tup(rows(a), cols(a)))]


MODELS["ArrayBase::nrows"] = lambda eng, fr, st, fn, args, t: [(st, rows(base(eng, st, args[0])))]
MODELS["ArrayBase::ncols"] = lambda eng, fr, st, fn, args, t: [(st, cols(base(eng, st, args[0])))]


@model("ArrayBase::len_of")
def _lenof(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    x = args[1]
    while x.op == "agg" and len(x.a) == 3:
        x = x.a[2]
    if x is ZERO:
        return [(st, rows(a))]
    if x is ONE:
        return [(st, cols(a))]
    return NotImplemented


@model("ArrayBase::len", "PyArray::len")
def _len(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    return [(st, raw("len1", a) if oneD(eng, fr, t) else mul(rows(a), cols(a)))]


@model("ArrayBase::is_standard_layout", "PyArray::is_c_contiguous", "PyUntypedArray::is_c_contiguous")
def _std(eng, fr, st, fn, args, t):
    return [(st, raw("contig", base(eng, st, args[0])))]


@model("PyReadonlyArray::as_array", "ArrayBase::view", "ArrayBase::reborrow")
def _asarray(eng, fr, st, fn, args, t):
    return [(st, base(eng, st, args[0]))]


@model("ArrayBase::as_slice")
def _asslice(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    res = []
    for s, b in eng.fork(st, raw("contig", a)):
        res.append((s, some(eng.alloc(s, raw("flat1" if oneD(eng, fr, t) else "flat", a))) if b else NONE))
    return res


@model("ArrayBase::to_slice")
def _toslice(eng, fr, st, fn, args, t):
    return _asslice(eng, fr, st, fn, args, t)


@model("ArrayBase::as_slice_memory_order")
def _memorder(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    res = []
    for s, b in eng.fork(st, raw("gapless", a)):
        res.append((s, some(eng.alloc(s, raw("memory", a))) if b else NONE))
    return res


@model("PyReadonlyArray::as_slice")
def _pyslice(eng, fr, st, fn, args, t):
    a = base(eng, st, args[0])
    # numpy gives the slice of any gapless array, in the order of its memory
    one = oneD(eng, fr, t)
    res = []
    for s, b in eng.fork(st, raw("contig" if one else "gapless", a)):
        res.append((s, ok(eng.alloc(s, raw("flat1" if one else "memory", a))) if b else err(raw("pyerr", a))))
    return res


@model("ArrayBase::from_shape_vec_unchecked")
def _fromshape(eng, fr, st, fn, args, t):
    sh, v = args
    if sh.op == "agg" and len(sh.a) == 4:
        return [(st, raw("nd2", sh.a[2], sh.a[3], v))]
    return NotImplemented


@model("ArrayBase::from_shape_vec")
def _fromshape2(eng, fr, st, fn, args, t):
    sh, v = args
    if sh.op == "agg" and len(sh.a) == 4:
        return [(s, ok(raw("nd2", sh.a[2], sh.a[3], v)) if b else err(raw("pyerr", v))) for s, b in eng.fork(st, eq(mul(sh.a[2], sh.a[3]), len_(v)))]
    return NotImplemented


@model("ArrayBase::from_vec")
def _fromvec(eng, fr, st, fn, args, t):
    return [(st, raw("nd1", args[0]))]


@model("IntoPyArray::into_pyarray", "PyArray::from_owned_array")
def _intopy(eng, fr, st, fn, args, t):
    a = args[0] if "into_pyarray" in fn["path"] else args[1]
    return [(st, a if a.op in ("nd1", "nd2") else raw("nd1", a))]


@model("PyArray::from_vec")
def _pyfromvec(eng, fr, st, fn, args, t):
    return [(st, raw("nd1", args[1]))]


@model("ArrayBase::to_owned", "ArrayBase::into_owned", "ArrayBase::as_standard_layout", "PyArray::to_owned_array", "PyArray::to_vec", "PyReadonlyArray::to_owned_array")
def _copy(eng, fr, st, fn, args, t):
    return [(st, raw("copyof", base(eng, st, args[0])))]


@model("macro_help::change_lifetime", "macro_help::aliasable_boxed", "macro_help::unbox")
def _same(eng, fr, st, fn, args, t):
    return [(st, args[0])]


@model("TryInto::try_into", "TryFrom::try_from")
def _tryinto(eng, fr, st, fn, args, t):
    """a slice to an array of a known length"""
    ty = fr.types[t[5]]
    if ty["k"] != "adt" or not ty.get("args") or "t" not in ty["args"][0]:
        return NotImplemented
    d = fr.types[ty["args"][0]["t"]]
    byref = d["k"] == "ref"
    if byref:
        d = fr.types[d["to"]]
    if d["k"] != "array" or args[0].op != "ref" and byref:
        return NotImplemented
    v = eng.load(st, args[0]) if args[0].op == "ref" else args[0]
    n = lenterm(fr, d)
    return [(s, ok(args[0] if byref else v) if b else err(raw("pyerr", len_(v)))) for s, b in eng.fork(st, eq(len_(v), n))]


def chunked(eng, fr, st, a, x, y):
    """a pointer to elements becomes a pointer to arrays of elements"""
    if y["k"] == "array" and x["k"] in ("float", "param", "int") and a.op == "ref":
        c, p = place_of(a)
        if p and p[-1] == pi(ZERO):
            r = eng.alloc(st, raw("chunks", eng.read(st, c, p[:-1]), lenterm(fr, y)))
            c2, p2 = place_of(r)
            return mkref(c2, list(p2) + [pi(ZERO)])
    return a


@model("*const::cast", "*mut::cast")
def _cast(eng, fr, st, fn, args, t):
    try:
        x, y = fr.types[eng.optype(fr, t[2][0])["to"]], fr.types[fr.types[t[5]]["to"]]
    except (KeyError, IndexError, TypeError):
        return [(st, args[0])]
    return [(st, chunked(eng, fr, st, args[0], x, y))]


@model("[T]::as_chunks")
def _aschunks(eng, fr, st, fn, args, t):
    """the standard function"""
    n = [v for i, v in eng.cargs(fr, fn)]
    if len(n) != 1:
        return NotImplemented
    v = eng.load(st, args[0])
    r = eng.alloc(st, raw("chunks", v, n[0]))
    return [(st, tup(r, eng.alloc(st, fresh("remainder"))))]
