"""Transfer functions of library callees (std, rayon, num-traits, ordered-float, likely_stable)."""
from terms import *
import terms as TM
from engine import Panic, RETRY, Imprecise, uniq, TRANSPARENT_ADT, FNTAB

MODELS = {}
RANGE = "core::ops::range::Range"
RANGEI = "core::ops::range::RangeInclusive"
CF = "core::ops::control_flow::ControlFlow"


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def dval(eng, fr, st, args, t, i):
    """The value behind all reference levels of argument i."""
    a = args[i]
    if fr is None or t[2][i]["k"] == "none":
        return eng.deep(st, a)
    ty = eng.optype(fr, t[2][i])
    while ty["k"] in ("ref", "ptr"):
        a = eng.load(st, a)
        ty = fr.types[ty["to"]]
    if ty["k"] in ("param", "alias", "other") and a.op == "ref":
        a = eng.deep(st, a)
    return a


def simple(*names):
    """A pure function of the (dereferenced) arguments."""
    def deco(f):
        def h(eng, fr, st, fn, args, t):
            v = f(*[dval(eng, fr, st, args, t, i) for i in range(len(args))])
            if fr is not None and len(t) > 5 and t[5] is not None and fr.types[t[5]]["k"] == "ref":
                v = eng.alloc(st, v)
            return [(st, v)]
        for n in names:
            MODELS[n] = h
        return f
    return deco


def pan(eng, st, msg, kind="panic"):
    eng.log(st, "panic", msg)
    return (st, Panic(msg, kind))


# --------------------------------------------------------------------------- arithmetic
for _n, _op in (("Add::add", "add"), ("Sub::sub", "sub"), ("Mul::mul", "mul"), ("Div::div", "div"), ("Rem::rem", "rem")):
    simple(_n)(lambda a, b, _op=_op: mk(_op, a, b))
for _n, _op in (("AddAssign::add_assign", "add"), ("SubAssign::sub_assign", "sub"), ("MulAssign::mul_assign", "mul"),
                ("DivAssign::div_assign", "div")):
    def _h(eng, fr, st, fn, args, t, _op=_op):
        v = mk(_op, dval(eng, fr, st, args, t, 0), dval(eng, fr, st, args, t, 1))
        eng.storep(st, args[0], v)
        return [(st, UNIT)]
    MODELS[_n] = _h
simple("Neg::neg")(neg)
simple("Float::sqrt", "Real::sqrt", "f64::sqrt", "f32::sqrt")(sqrt)
simple("Float::powi", "Real::powi", "f64::powi", "f32::powi")(powi)
simple("Pow::pow", "pow::pow")(lambda a, n: powi(a, n))
simple("Float::abs", "Signed::abs", "f64::abs", "f32::abs", "Real::abs")(abs_)
simple("Float::min", "Ord::min", "cmp::min", "f64::min", "f32::min", "Real::min")(min_)
simple("Float::max", "Ord::max", "cmp::max", "f64::max", "f32::max", "Real::max")(max_)
simple("Float::mul_add", "MulAdd::mul_add", "f64::mul_add", "f32::mul_add")(lambda a, b, c: add(mul(a, b), c))
simple("Float::infinity")(lambda: F("inf"))
simple("Float::neg_infinity")(lambda: F("-inf"))
simple("Float::max_value", "Bounded::max_value")(lambda: F("max"))
simple("Float::min_value", "Bounded::min_value")(lambda: F("min"))
simple("Float::nan")(lambda: F("nan"))
simple("Float::epsilon")(lambda: raw("eps"))
simple("Float::min_positive_value")(lambda: raw("minpos"))
simple("Float::is_infinite", "FloatCore::is_infinite")(lambda a: raw("isinf", a))
simple("Float::is_nan", "FloatCore::is_nan", "NotNan::is_nan")(lambda a: raw("isnan", a))
simple("Float::is_finite", "FloatCore::is_finite")(lambda a: and_(not_(raw("isnan", a)), not_(raw("isinf", a))))
simple("Float::is_normal", "FloatCore::is_normal")(lambda a: raw("isnormal", a))
simple("Float::is_sign_negative", "FloatCore::is_sign_negative")(lambda a: raw("isneg", a))
simple("Float::is_sign_positive", "FloatCore::is_sign_positive")(lambda a: not_(raw("isneg", a)))
simple("Float::recip")(lambda a: div(F(1.0), a))
simple("Float::floor")(lambda a: raw("floor", a))
simple("Float::ceil")(lambda a: raw("ceil", a))
simple("Float::round")(lambda a: raw("round", a))
simple("Float::trunc", "f64::trunc", "f32::trunc")(lambda a: raw("trunc", a))
simple("Float::fract", "f64::fract", "f32::fract")(lambda a: raw("fract", a))
simple("Float::signum", "Signed::signum", "f64::signum", "f32::signum")(lambda a: raw("signum", a))
simple("Float::copysign", "f64::copysign", "f32::copysign")(lambda a, b: raw("copysign", a, b))
simple("Float::is_subnormal", "f64::is_subnormal", "f32::is_subnormal")(lambda a: raw("issubnormal", a))
simple("Float::hypot", "f64::hypot", "f32::hypot")(lambda a, b: sqrt(add(mul(a, a), mul(b, b))))
simple("Float::powf", "f64::powf", "f32::powf", "Real::powf")(
    lambda a, b: mul(a, a) if b.op in ("flt", "int") and not isinstance(b.a[0], str) and float(b.a[0]) == 2.0 else raw("powf", a, b))
for _i in ("usize", "u64", "u32", "u8", "u16", "isize", "i32", "i64"):
    simple(_i + "::is_multiple_of")(lambda a, b: eq(mk("rem", a, b), ZERO))
    simple(_i + "::next_multiple_of")(lambda a, b: mul(div(add(a, sub(b, ONE)), b), b))
    simple(_i + "::next_power_of_two")(lambda a: raw("nextpow2", a))
    simple(_i + "::isqrt")(lambda a: raw("isqrt", a))
simple("Float::rem_euclid", "Euclid::rem_euclid")(lambda a, b: raw("remeuclid", a, b))
for _i in ("usize", "u64", "u32", "i32", "i64", "u8"):
    @model(_i + "::ilog2")
    def _ilog2(eng, fr, st, fn, args, t):
        a = dval(eng, fr, st, args, t, 0)
        if eng.arith and lt(ZERO, a) is not TRUE:
            eng.log(st, "maypanic", "ilog2", lt(ZERO, a))
        return [(st, raw("ilog2", a))]
    simple(_i + "::checked_ilog2")(lambda a: ite(eq(a, ZERO), NONE, some(raw("ilog2", a))))
    simple(_i + "::pow")(pow_)
    simple(_i + "::saturating_sub")(satsub)
    simple(_i + "::saturating_add")(add)
    simple(_i + "::saturating_mul")(mul)
    simple(_i + "::wrapping_add")(add)
    simple(_i + "::wrapping_sub")(sub)
    simple(_i + "::wrapping_mul")(mul)
    simple(_i + "::checked_sub")(lambda a, b: ite(lt(a, b), NONE, some(sub(a, b))))
    simple(_i + "::checked_add")(lambda a, b: some(add(a, b)))
    simple(_i + "::checked_mul")(lambda a, b: some(mul(a, b)))
    simple(_i + "::checked_div")(lambda a, b: ite(eq(b, ZERO), NONE, some(div(a, b))))
    simple(_i + "::checked_rem")(lambda a, b: ite(eq(b, ZERO), NONE, some(rem(a, b))))
    simple(_i + "::div_ceil")(lambda a, b: div(add(a, sub(b, ONE)), b))
    simple(_i + "::abs_diff")(lambda a, b: abs_(sub(a, b)))
    simple(_i + "::is_power_of_two")(lambda a: raw("ispow2", a))
    simple(_i + "::count_ones")(lambda a: raw("popcount", a))
    simple(_i + "::leading_zeros")(lambda a: raw("clz", a))
    simple(_i + "::trailing_zeros")(lambda a: raw("ctz", a))


@model("Ord::clamp", "f64::clamp", "f32::clamp", "clamp::clamp", "Float::clamp")
def _clamp(eng, fr, st, fn, args, t):
    x, lo, hi = [dval(eng, fr, st, args, t, i) for i in range(3)]
    eng.log(st, "maypanic", "clamp", le(lo, hi))
    v = max_(lo, min_(x, hi))
    if fr is not None and fr.types[t[5]]["k"] == "ref":
        v = eng.alloc(st, v)
    return [(st, v)]


def is_int_ty(eng, fr, t):
    if fr is None or t[5] is None:
        return False
    ty = fr.types[t[5]]
    return ty["k"] == "int"


@model("Zero::zero", "One::one")
def _zero(eng, fr, st, fn, args, t):
    n = 0 if "zero" in fn["name"] else 1
    if fr is not None and len(t) > 5 and fr.types[t[5]]["k"] == "int":
        return [(st, I(n))]
    return [(st, F(float(n)))]


simple("Zero::is_zero")(lambda a: eq(a, F(0.0)))


@model("NumCast::from", "FromPrimitive::from_f64", "FromPrimitive::from_usize", "FromPrimitive::from_f32",
       "FromPrimitive::from_i32", "FromPrimitive::from_u32", "FromPrimitive::from_u8", "FromPrimitive::from_u64",
       "ToPrimitive::to_f64", "ToPrimitive::to_f32", "ToPrimitive::to_usize")
def _numcast(eng, fr, st, fn, args, t):
    a = dval(eng, fr, st, args, t, 0)
    if a.op == "int":
        a = F(float(a.a[0]))
    if fn["name"] == "to_f32" and num(a) is None:
        a = raw("single", a)            # rounded
    if fn["name"] == "to_usize" and num(a) is None:
        a = raw("toint", a)
    return [(st, some(a))]


# --------------------------------------------------------------------------- comparisons
LESS, EQUAL, GREATER = "lt", "eq", "gt"


def local_impl(eng, fr, fn, trait_end, item):
    """Body of a local impl of `trait` for the (dereferenced) Self type of a call."""
    if fr is None or not fn.get("args"):
        return None
    ty = fn["args"][0].get("t")
    if ty is None:
        return None
    T = fr.types[ty]
    while T["k"] == "ref":
        T = fr.types[T["to"]]
    if T["k"] != "adt" or not T.get("local"):
        return None
    name = T["path"].split("::")[-1]
    for im in eng.p.impls:
        if im.get("trait") and im["trait"].split("::")[-1].split("<")[0] == trait_end and _adt_of(im, eng) == T["path"]:
            # the impl whose other-type parameter is Self
            for it in im["items"]:
                k = it if isinstance(it, str) else it.get("key")
                if k and k.endswith("::" + item):
                    b = eng.p.bodies.get(k)
                    if b is not None and b.get("bbs"):
                        t2 = b["types"][b["locals"][2]]
                        while t2["k"] == "ref":
                            t2 = b["types"][t2["to"]]
                        if t2["k"] == "adt" and t2["path"] == T["path"]:
                            return b
    return None


def _adt_of(im, eng):
    s = im["self"]
    if isinstance(s, int):
        for cn in ():
            pass
        return None
    if isinstance(s, dict):
        return s.get("path")
    return s.split("<")[0]


def refarg(eng, st, a, want=1):
    """A reference with exactly one level to the compared value."""
    while a.op == "ref":
        v = eng.load(st, a)
        if v.op != "ref":
            break
        a = v
    return a


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge", "PartialEq::eq", "PartialEq::ne",
       "Ord::cmp", "PartialOrd::partial_cmp", "f64::total_cmp", "f32::total_cmp", "FloatCore::total_cmp", "TotalOrder::total_cmp")
def _cmp(eng, fr, st, fn, args, t):
    name = fn["name"]
    if name in ("lt", "le", "gt", "ge"):
        b = local_impl(eng, fr, fn, "PartialOrd", "partial_cmp")
    elif name == "ne":
        b = local_impl(eng, fr, fn, "PartialEq", "eq")
    elif name == "partial_cmp":
        b = None
    else:
        b = None
    if b is not None:
        outs = eng.call_local(fr, st, b, (), [refarg(eng, st, args[0]), refarg(eng, st, args[1])])
        res = []
        for s, v in outs:
            if isinstance(v, Panic):
                res.append((s, v))
            elif name == "ne":
                res.append((s, not_(v)))
            else:
                c = fld(v, 1, 0)
                res.append((s, and_(is_(v, 1), ordtest(c, name))))
        return res
    x, y = dval(eng, fr, st, args, t, 0), dval(eng, fr, st, args, t, 1)
    if name == "lt":
        v = lt(x, y)
    elif name == "le":
        v = le(x, y)
    elif name == "gt":
        v = lt(y, x)
    elif name == "ge":
        v = le(y, x)
    elif name == "eq":
        v = eqv(x, y)
    elif name == "ne":
        v = not_(eqv(x, y))
    elif name == "partial_cmp":
        v = some(raw("cmp", x, y))
        if eng.arith and rawfloat(eng, fr, t):
            v = ite(or_(raw("isnan", x), raw("isnan", y)), NONE, v)
    else:
        v = raw("cmp", x, y)
    return [(st, v)]


def rawfloat(eng, fr, t):
    """the first operand is a float that may be NaN"""
    if fr is None or not t[2] or t[2][0]["k"] == "none":
        return False
    ty = eng.optype(fr, t[2][0])
    while ty["k"] in ("ref", "ptr"):
        ty = fr.types[ty["to"]]
    return ty["k"] in ("float", "param")


ORDN = {"Less": -1, "Equal": 0, "Greater": 1}


def ordconst(t):
    """-1/0/1 of a constant Ordering."""
    if t.op == "agg" and str(t.a[0]).endswith("cmp::Ordering"):
        return t.a[1] - 1
    if t.op == "constant":
        s = str(t.a[0])
        if "Ordering" in s:
            for k, v in ORDN.items():
                if k in s:
                    return v
            import re
            m = re.search(r"\((\d+)\)", s)
            if m:
                n = int(m.group(1))
                return -1 if n > 127 else n
    if t.op == "int":
        return t.a[0]
    return None


def ordtest(c, name):
    if c.op == "ite":
        return ite(c.a[0], ordtest(c.a[1], name), ordtest(c.a[2], name))
    k = ordconst(c)
    if k is not None:
        return B({"lt": k < 0, "le": k <= 0, "gt": k > 0, "ge": k >= 0, "eq": k == 0, "ne": k != 0}[name])
    if c.op == "cmp":
        a, b = c.a
        return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a), "eq": eq(a, b), "ne": not_(eq(a, b))}[name]
    return raw("ordtest", c, name)


def eqv(x, y):
    for p, q in ((x, y), (y, x)):
        k = ordconst(q)
        if k is not None and p.op == "cmp":
            return ordtest(p, {-1: "lt", 0: "eq", 1: "gt"}[k])
        if q.op == "agg" and q.a[0] == OPT:
            if q.a[1] == 0:
                return is_(p, 0)
            if p.op == "agg" and p.a[0] == OPT:
                return eqv(p.a[2], q.a[2]) if p.a[1] == 1 else FALSE
            return and_(is_(p, 1), eqv(fld(p, 1, 0), q.a[2]))
    return eq(x, y)


for _n in ("lt", "le", "gt", "ge", "eq", "ne"):
    simple("Ordering::is_" + _n)(lambda c, _n=_n: ordtest(c, _n))


@simple("Ordering::reverse")
def _ordrev(c):
    if c.op == "cmp":
        return raw("cmp", c.a[1], c.a[0])
    if c.op == "ite":
        return ite(c.a[0], _ordrev(c.a[1]), _ordrev(c.a[2]))
    return raw("ordrev", c)


simple("Ordering::then")(lambda a, b: raw("ordthen", a, b))


@model("Ordering::then_with")
def _ordthen(eng, fr, st, fn, args, t):
    outs = eng.call_closure(st, args[1], [])
    return [(s, v if isinstance(v, Panic) else raw("ordthen", args[0], v)) for s, v in outs]


# --------------------------------------------------------------------------- transparent things
@model("NotNan::new_unchecked", "likely_stable::likely", "likely_stable::unlikely", "hint::must_use", "Box::new", "NotNan::into_inner",
       "UnsafeCell::new", "SyncUnsafeCell::new", "RwLock::new", "Mutex::new", "MaybeUninit::new", "ManuallyDrop::new", "convert::identity",
       "hint::black_box", "Cell::new", "RefCell::new", "UnsafeCell::into_inner", "SyncUnsafeCell::into_inner", "ManuallyDrop::into_inner",
       "Pin::new", "MaybeUninit::assume_init", "Box::leak", "Wrapping")
def _ident(eng, fr, st, fn, args, t):
    return [(st, args[0])]


@model("NotNan::new")
def _nnnew(eng, fr, st, fn, args, t):
    res = []
    for s, b in eng.fork(st, raw("isnan", args[0])):
        res.append((s, err(UNIT) if b else ok(args[0])))
    return res


@model("SyncUnsafeCell::get", "UnsafeCell::get", "SyncUnsafeCell::get_mut", "UnsafeCell::get_mut", "MaybeUninit::as_mut_ptr", "MaybeUninit::as_ptr")
def _cellget(eng, fr, st, fn, args, t):
    eng.log(st, "cellget", args[0])
    return [(st, args[0])]


def selfty(eng, fr, fn):
    if fr is None or not fn.get("args"):
        return None
    ty = fn["args"][0].get("t")
    if ty is None:
        return None
    return fr.types[ty]


REFLIKE = ("alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rc::Rc", "alloc::collections::binary_heap::PeekMut")


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut")
def _deref(eng, fr, st, fn, args, t):
    a = args[0]
    T = selfty(eng, fr, fn)
    v = eng.load(st, a)
    if T is not None and T["k"] == "adt":
        p = T["path"]
        if "Arc" in p or "PeekMut" in p or p.endswith("::Rc"):
            return [(st, v)]
        if "Guard" in p:
            if v.op == "agg" and v.a[0] == "lockguard":
                return [(st, v.a[2])]
            return [(st, v)]
        return [(st, a)]
    if T is not None and T["k"] == "ref":
        return [(st, v)]
    if v.op == "agg" and v.a[0] == "lockguard":
        return [(st, v.a[2])]
    if v.op == "ref" and v.a[-1].op == "ptop":
        return [(st, v)]
    return [(st, a)]


@model("Clone::clone", "ToOwned::to_owned", "[T]::to_vec", "[T]::into_vec", "Vec::into_boxed_slice", "Option::cloned", "Option::copied", "Clone::clone_from")
def _clone(eng, fr, st, fn, args, t):
    if fn["name"] in ("cloned", "copied"):
        o = args[0]
        res = []
        for s, b in eng.fork(st, is_(o, 1)):
            res.append((s, some(eng.load(s, fld(o, 1, 0))) if b else NONE))
        return res
    if fn["name"] in ("into_vec", "into_boxed_slice"):
        return [(st, args[0])]
    if fn["name"] == "clone_from":
        eng.storep(st, args[0], eng.load(st, args[1]))
        return [(st, UNIT)]
    b = local_impl(eng, fr, fn, "Clone", "clone")
    return [(st, eng.load(st, args[0]))]


@model("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from")
def _into(eng, fr, st, fn, args, t):
    if fn["name"].startswith("try"):
        return NotImplemented
    a = args[0]
    if a.op == "int" and fr is not None and len(t) > 5 and fr.types[t[5]]["k"] in ("float", "param"):
        a = F(float(a.a[0]))
    return [(st, a)]


def default_of(types, ty):
    t = types[ty]
    k = t["k"]
    if k == "tuple":
        return tup(*[default_of(types, x) for x in t["of"]])
    if k == "int":
        return ZERO
    if k == "float":
        return F(0.0)
    if k == "bool":
        return FALSE
    if k == "adt":
        p = t["path"]
        if p.endswith("::Vec"):
            return raw("vnew", ZERO)
        if p.endswith("BinaryHeap"):
            return raw("vnew", ZERO)
        if p == OPT:
            return NONE
        if "NotNan" in p:
            return F(0.0)
    if k == "array":
        return raw("repeat", default_of(types, t["of"]), lenconst(t))
    return raw("default", t.get("s", ""))


def lenconst(t):
    l = t.get("len")
    if isinstance(l, dict):
        if l.get("k") == "param":
            return raw("cparam", l["name"])
        b = l.get("bits") or l.get("v")
        if b is not None:
            return I(int(b))
    if isinstance(l, int):
        return I(l)
    return raw("constarg", str(l))


@model("Default::default", "array::from_fn")
def _default(eng, fr, st, fn, args, t):
    if fn["name"] == "from_fn":
        return from_fn(eng, fr, st, fn, args, t)
    if fr is None or t[5] is None:
        return [(st, raw("default", ""))]
    return [(st, default_of(fr.types, t[5]))]


def from_fn(eng, fr, st, fn, args, t):
    n = None
    if fr is not None:
        for i, v in eng.cargs(fr, fn):
            n = v
    if n is None:
        return NotImplemented
    cell = eng.alloc(st, raw("repeat", raw("undef", "from_fn"), n))
    pos = eng.alloc(st, ZERO)
    f = eng.alloc(st, args[0])
    key, sp = eng.fnkey, eng.sp

    def step(s):
        res = []
        i = eng.load(s, pos)
        for s1, b in eng.fork(s, lt(i, n)):
            if not b:
                res.append(("exit", s1, None))
                continue
            for s2, v in eng.call_closure(s1, f, [i]):
                if isinstance(v, Panic):
                    res.append(("panic", s2, v))
                    continue
                c, p = place_of(cell)
                eng.write(s2, c, list(p) + [pi(i)], v, log=False)
                eng.write(s2, place_of(pos)[0], place_of(pos)[1], add(i, ONE), log=False)
                res.append(("back", s2, None))
        return res
    return [(s, eng.load(s, cell) if k == "exit" else x) for k, s, x in eng.summarise(st, step, "from_fn", key, sp, False)]


@model("array::map", "[T]::map")
def _amap(eng, fr, st, fn, args, t):
    arr = args[0]
    return _collect_into(eng, st, agg("it:map", 0, agg("it:vec", 0, arr, ZERO, len_(arr)), args[1]), None, False)


# --------------------------------------------------------------------------- Option / Result
def okvar(fn):
    return 1 if "Option" in fn["path"] else 0


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def _unwrap(eng, fr, st, fn, args, t):
    k = okvar(fn)
    res = []
    for s, b in eng.fork(st, is_(args[0], k)):
        if b:
            res.append((s, fld(args[0], k, 0)))
        else:
            res.append(pan(eng, s, "unwrap", "unwrap"))
    return res


@model("Result::unwrap_err", "Result::expect_err")
def _unwrape(eng, fr, st, fn, args, t):
    res = []
    for s, b in eng.fork(st, is_(args[0], 1)):
        res.append((s, fld(args[0], 1, 0)) if b else pan(eng, s, "unwrap_err", "unwrap"))
    return res


@model("Option::unwrap_unchecked", "Result::unwrap_unchecked")
def _unwrapu(eng, fr, st, fn, args, t):
    k = okvar(fn)
    c = is_(args[0], k)
    eng.log(st, "unsafe", "unwrap_unchecked", c, eng.known(st, c))
    return [(st, fld(args[0], k, 0))]


def on_variant(k, yes, no):
    def h(eng, fr, st, fn, args, t):
        kk = okvar(fn) if k is None else k
        res = []
        for s, b in eng.fork(st, is_(args[0], kk)):
            r = (yes if b else no)(eng, s, fn, args, kk)
            res.extend(r)
        return res
    return h


def _payload(o, k):
    return fld(o, k, 0)


def _wrap(fn, x):
    return some(x) if "Option" in fn["path"] else ok(x)


def _no(eng, s, fn, args, k):
    return [(s, NONE if "Option" in fn["path"] else err(fld(args[0], 1, 0)))]


def _clos(f, outs):
    return [(s, v if isinstance(v, Panic) else f(v)) for s, v in outs]


MODELS["Option::map"] = MODELS["Result::map"] = on_variant(
    None, lambda e, s, fn, a, k: _clos(lambda v: _wrap(fn, v), e.call_closure(s, a[1], [_payload(a[0], k)])), _no)
MODELS["Option::and_then"] = MODELS["Result::and_then"] = on_variant(
    None, lambda e, s, fn, a, k: e.call_closure(s, a[1], [_payload(a[0], k)]), _no)
MODELS["Result::map_err"] = on_variant(
    0, lambda e, s, fn, a, k: [(s, ok(_payload(a[0], 0)))],
    lambda e, s, fn, a, k: _clos(err, e.call_closure(s, a[1], [fld(a[0], 1, 0)])))
MODELS["Option::unwrap_or"] = MODELS["Result::unwrap_or"] = on_variant(
    None, lambda e, s, fn, a, k: [(s, _payload(a[0], k))], lambda e, s, fn, a, k: [(s, a[1])])
MODELS["Option::unwrap_or_else"] = on_variant(
    1, lambda e, s, fn, a, k: [(s, _payload(a[0], k))], lambda e, s, fn, a, k: e.call_closure(s, a[1], []))
MODELS["Result::unwrap_or_else"] = on_variant(
    0, lambda e, s, fn, a, k: [(s, _payload(a[0], k))], lambda e, s, fn, a, k: e.call_closure(s, a[1], [fld(a[0], 1, 0)]))
MODELS["Option::map_or"] = MODELS["Result::map_or"] = on_variant(
    None, lambda e, s, fn, a, k: e.call_closure(s, a[2], [_payload(a[0], k)]), lambda e, s, fn, a, k: [(s, a[1])])
MODELS["Option::map_or_else"] = on_variant(
    1, lambda e, s, fn, a, k: e.call_closure(s, a[2], [_payload(a[0], k)]), lambda e, s, fn, a, k: e.call_closure(s, a[1], []))
MODELS["Option::ok_or"] = on_variant(
    1, lambda e, s, fn, a, k: [(s, ok(_payload(a[0], 1)))], lambda e, s, fn, a, k: [(s, err(a[1]))])
MODELS["Option::ok_or_else"] = on_variant(
    1, lambda e, s, fn, a, k: [(s, ok(_payload(a[0], 1)))],
    lambda e, s, fn, a, k: _clos(err, e.call_closure(s, a[1], [])))
MODELS["Result::ok"] = on_variant(0, lambda e, s, fn, a, k: [(s, some(_payload(a[0], 0)))], lambda e, s, fn, a, k: [(s, NONE)])
MODELS["Result::err"] = on_variant(0, lambda e, s, fn, a, k: [(s, NONE)], lambda e, s, fn, a, k: [(s, some(fld(a[0], 1, 0)))])
MODELS["Option::or_else"] = on_variant(1, lambda e, s, fn, a, k: [(s, a[0])], lambda e, s, fn, a, k: e.call_closure(s, a[1], []))
MODELS["Option::or"] = on_variant(1, lambda e, s, fn, a, k: [(s, a[0])], lambda e, s, fn, a, k: [(s, a[1])])
MODELS["Option::is_some_and"] = on_variant(
    1, lambda e, s, fn, a, k: e.call_closure(s, a[1], [_payload(a[0], 1)]), lambda e, s, fn, a, k: [(s, FALSE)])
MODELS["Option::is_none_or"] = on_variant(
    1, lambda e, s, fn, a, k: e.call_closure(s, a[1], [_payload(a[0], 1)]), lambda e, s, fn, a, k: [(s, TRUE)])


@model("Option::filter")
def _ofilter(eng, fr, st, fn, args, t):
    res = []
    for s, b in eng.fork(st, is_(args[0], 1)):
        if not b:
            res.append((s, NONE))
            continue
        x = fld(args[0], 1, 0)
        for s1, v in eng.call_closure(s, args[1], [eng.alloc(s, x)]):
            if isinstance(v, Panic):
                res.append((s1, v))
                continue
            for s2, w in eng.fork(s1, v):
                res.append((s2, some(x) if w else NONE))
    return res


MODELS["Option::and"] = MODELS["Result::and"] = on_variant(None, lambda e, s, fn, a, k: [(s, a[1])], _no)
MODELS["Result::or"] = on_variant(0, lambda e, s, fn, a, k: [(s, ok(_payload(a[0], 0)))], lambda e, s, fn, a, k: [(s, a[1])])
MODELS["Result::or_else"] = on_variant(
    0, lambda e, s, fn, a, k: [(s, ok(_payload(a[0], 0)))], lambda e, s, fn, a, k: e.call_closure(s, a[1], [fld(a[0], 1, 0)]))
MODELS["Result::is_ok_and"] = on_variant(
    0, lambda e, s, fn, a, k: e.call_closure(s, a[1], [_payload(a[0], 0)]), lambda e, s, fn, a, k: [(s, FALSE)])
MODELS["Result::is_err_and"] = on_variant(
    0, lambda e, s, fn, a, k: [(s, FALSE)], lambda e, s, fn, a, k: e.call_closure(s, a[1], [fld(a[0], 1, 0)]))
MODELS["Option::flatten"] = on_variant(1, lambda e, s, fn, a, k: [(s, _payload(a[0], 1))], lambda e, s, fn, a, k: [(s, NONE)])
MODELS["Option::inspect"] = MODELS["Result::inspect"] = on_variant(
    None, lambda e, s, fn, a, k: _clos(lambda v: _wrap(fn, _payload(a[0], k)), e.call_closure(s, a[1], [e.alloc(s, _payload(a[0], k))])), _no)


@model("Option::zip")
def _ozip(eng, fr, st, fn, args, t):
    res = []
    for s, b in eng.fork(st, is_(args[0], 1)):
        for s2, b2 in (eng.fork(s, is_(args[1], 1)) if b else [(s, False)]):
            res.append((s2, some(tup(fld(args[0], 1, 0), fld(args[1], 1, 0))) if b2 else NONE))
    return res


@model("Option::xor")
def _oxor(eng, fr, st, fn, args, t):
    res = []
    for s, b in eng.fork(st, is_(args[0], 1)):
        for s2, b2 in eng.fork(s, is_(args[1], 1)):
            res.append((s2, NONE if b == b2 else some(fld(args[0] if b else args[1], 1, 0))))
    return res


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _uod(eng, fr, st, fn, args, t):
    k = okvar(fn)
    d = default_of(fr.types, t[5]) if fr is not None and len(t) > 5 and t[5] is not None else raw("default", "")
    return [(s, fld(args[0], k, 0) if b else d) for s, b in eng.fork(st, is_(args[0], k))]


@model("Option::get_or_insert", "Option::get_or_insert_with", "Option::get_or_insert_default")
def _goi(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    out = mkref(c, list(p) + [pf(1, 0)])
    if fn["name"].endswith("default"):
        return NotImplemented
    res = []
    for s, b in eng.fork(st, is_(eng.load(st, args[0]), 1)):
        if b:
            res.append((s, out))
            continue
        for s2, v in (eng.call_closure(s, args[1], []) if fn["name"].endswith("with") else [(s, args[1])]):
            if isinstance(v, Panic):
                res.append((s2, v))
            else:
                eng.storep(s2, args[0], some(v))
                res.append((s2, out))
    return res


simple("Option::is_some")(lambda o: is_(o, 1))
simple("Option::is_none")(lambda o: is_(o, 0))
simple("Result::is_ok")(lambda o: is_(o, 0))
simple("Result::is_err")(lambda o: is_(o, 1))


@model("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Result::as_ref", "Result::as_mut")
def _asref(eng, fr, st, fn, args, t):
    v = eng.load(st, args[0])
    c, p = place_of(args[0])
    res = []
    if "Option" in fn["path"]:
        for s, b in eng.fork(st, is_(v, 1)):
            res.append((s, some(mkref(c, list(p) + [pf(1, 0)])) if b else NONE))
    else:
        for s, b in eng.fork(st, is_(v, 0)):
            res.append((s, ok(mkref(c, list(p) + [pf(0, 0)])) if b else err(mkref(c, list(p) + [pf(1, 0)]))))
    return res


@model("Option::take", "mem::take")
def _take(eng, fr, st, fn, args, t):
    v = eng.load(st, args[0])
    if fn["name"] == "take" and "Option" in fn["path"]:
        d = NONE
    else:
        d = default_of(fr.types, t[5]) if fr is not None else raw("default", "")
    eng.storep(st, args[0], d)
    return [(st, v)]


@model("mem::replace", "Option::replace", "Option::insert")
def _replace(eng, fr, st, fn, args, t):
    v = eng.load(st, args[0])
    if "Option" in fn["path"]:
        eng.storep(st, args[0], some(args[1]))
        if fn["name"] == "insert":
            c, p = place_of(args[0])
            return [(st, mkref(c, list(p) + [pf(1, 0)]))]
        return [(st, v)]
    eng.storep(st, args[0], args[1])
    return [(st, v)]


@model("mem::swap", "ptr::swap")
def _swap(eng, fr, st, fn, args, t):
    a, b = eng.load(st, args[0]), eng.load(st, args[1])
    eng.storep(st, args[0], b)
    eng.storep(st, args[1], a)
    return [(st, UNIT)]


@model("mem::drop", "mem::forget")
def _drop(eng, fr, st, fn, args, t):
    if fn["name"] == "drop":
        eng.dropped(st, args[0])
    return [(st, UNIT)]


@model("mem::transmute", "mem::transmute_copy", "intrinsics::transmute")
def _transmute(eng, fr, st, fn, args, t):
    return [(st, args[0])]


@model("mem::size_of", "mem::align_of")
def _sizeof(eng, fr, st, fn, args, t):
    ty = (fn.get("args") or [{}])[0].get("t")
    return [(st, raw("sizeof" if fn["name"] == "size_of" else "alignof", fr.types[ty]["s"] if fr is not None and ty is not None else "T"))]


@model("Try::branch")
def _branch(eng, fr, st, fn, args, t):
    v = args[0]
    T = selfty(eng, fr, fn)
    o = T is not None and T.get("path") == OPT or (v.op == "agg" and v.a[0] == OPT)
    k = 1 if o else 0
    res = []
    for s, b in eng.fork(st, is_(v, k)):
        if b:
            res.append((s, agg(CF, 0, fld(v, k, 0))))
        else:
            res.append((s, agg(CF, 1, NONE if o else err(fld(v, 1, 0)))))
    return res


@model("FromResidual::from_residual")
def _resid(eng, fr, st, fn, args, t):
    return [(st, args[0])]


@model("Try::from_output")
def _fromout(eng, fr, st, fn, args, t):
    return [(st, ok(args[0]))]


# --------------------------------------------------------------------------- Arc / locks / threads
@model("Arc::new", "Rc::new")
def _arcnew(eng, fr, st, fn, args, t):
    return [(st, eng.alloc(st, args[0]))]


@model("Arc::try_unwrap", "Arc::into_inner", "Arc::get_mut", "Rc::try_unwrap")
def _arcun(eng, fr, st, fn, args, t):
    eng.log(st, "arcsole", args[0])
    if fn["name"] == "get_mut":
        return [(st, some(eng.load(st, args[0])))]
    if fn["name"] == "into_inner":
        return [(st, some(eng.load(st, args[0])))]
    return [(st, ok(eng.load(st, args[0])))]


@model("Arc::clone", "Rc::clone")
def _arcclone(eng, fr, st, fn, args, t):
    return [(st, eng.load(st, args[0]))]


@model("RwLock::write", "RwLock::read", "Mutex::lock", "RwLock::try_write", "Mutex::try_lock")
def _lock(eng, fr, st, fn, args, t):
    n = uniq()
    eng.log(st, "lock", args[0], fn["name"], n)
    c, p = place_of(args[0])
    eng.write(st, c, p, raw("locked", n), log=False)      # other threads may have changed the content
    return [(st, ok(agg("lockguard", 0, args[0])))]


@model("RwLock::into_inner", "Mutex::into_inner")
def _lockinto(eng, fr, st, fn, args, t):
    return [(st, ok(args[0]))]


@model("RwLock::get_mut", "Mutex::get_mut")
def _lockmut(eng, fr, st, fn, args, t):
    return [(st, ok(args[0]))]


@model("scoped::scope", "thread::scope", "functions::scope")
def _scope(eng, fr, st, fn, args, t):
    n = uniq()
    eng.log(st, "scope", n)
    outs = eng.call_closure(st, args[0], [raw("scope", n)])
    for s, v in outs:
        eng.log(s, "scopeend", n)
    return outs


@model("Scope::spawn", "rayon_core::join")
def _spawn(eng, fr, st, fn, args, t):
    n = uniq()
    if fn["name"] == "join":
        res = []
        eng.log(st, "spawn", n)
        for s, v in eng.call_closure(st, args[0], []):
            eng.log(s, "spawnend", n)
            if isinstance(v, Panic):
                res.append((s, v))
                continue
            for s2, w in eng.call_closure(s, args[1], []):
                eng.log(s2, "join", n)
                res.append((s2, w if isinstance(w, Panic) else tup(v, w)))
        return res
    eng.log(st, "spawn", n)
    res = []
    for s, v in eng.call_closure(st, args[1], [] if eng_argc(eng, s_closure(eng, st, args[1])) == 1 else [args[0]]):
        eng.log(s, "spawnend", n)
        if isinstance(v, Panic):
            res.append((s, agg("joinhandle", 0, I(n), err(raw("panicpayload", n)))))
        else:
            res.append((s, agg("joinhandle", 0, I(n), ok(v))))
    return res


def s_closure(eng, st, f):
    g = eng.deep(st, f)
    if g.op == "agg" and isinstance(g.a[0], tuple) and g.a[0][0] == "closure":
        return eng.p.bodies.get(g.a[0][1])
    return None


def eng_argc(eng, b):
    return 1 if b is None else b["argc"]


@model("ScopedJoinHandle::join", "JoinHandle::join")
def _join(eng, fr, st, fn, args, t):
    v = args[0]
    eng.log(st, "join", v.a[2].a[0] if v.op == "agg" else None)
    return [(st, fld(v, 0, 1))]


@model("thread_pool::current_thread_index")
def _cti(eng, fr, st, fn, args, t):
    # always Some inside a job of the pool
    return [(st, raw("threadindex"))]


simple("rayon_core::current_num_threads", "rayon_core::max_num_threads", "thread_pool::current_num_threads")(lambda: raw("sym", ("threads", "usize")))

for _n in ("Instant::now", "Instant::elapsed", "Duration::as_micros", "Duration::as_millis", "Duration::as_secs_f64", "stdio::_print", "stdio::_eprint",
           "Argument::new_display", "Argument::new_debug", "Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst",
           "fmt::format", "ToString::to_string", "Arguments::new_const", "Arguments::new_v1", "Argument::new_lower_exp", "SystemTime::now"):
    def _fmt(eng, fr, st, fn, args, t):
        return [(st, raw("fmt", fn["name"]))]
    MODELS[_n] = _fmt


# --------------------------------------------------------------------------- slices, vectors, heaps
def seqref(ref, st, eng):
    """(cell, projs) of the sequence a slice/Vec reference denotes."""
    return place_of(ref)


def seqlen(eng, st, ref):
    c, p = place_of(ref)
    if p and p[-1].op == "ps":
        return sub(p[-1].a[1], p[-1].a[0])
    if ref in eng.arrlen:
        return eng.arrlen[ref]
    return len_(eng.load(st, ref))


@model("[T]::len", "Vec::len", "BinaryHeap::len", "str::len", "VecDeque::len")
def _len(eng, fr, st, fn, args, t):
    return [(st, seqlen(eng, st, args[0]))]


@model("ExactSizeIterator::len", "IndexedParallelIterator::len")
def _itlen(eng, fr, st, fn, args, t):
    v = eng.deep(st, args[0])
    n = itlen(v)
    return [(st, n)] if n is not None else NotImplemented


@model("[T]::is_empty", "Vec::is_empty", "BinaryHeap::is_empty", "str::is_empty", "ExactSizeIterator::is_empty", "VecDeque::is_empty")
def _isempty(eng, fr, st, fn, args, t):
    return [(st, eq(seqlen(eng, st, args[0]), ZERO))]


def rng(eng, st, i, n):
    """(lo, hi) of a range index value, or None if it is a plain index."""
    if i.op == "agg" and isinstance(i.a[0], str) and i.a[0].startswith("core::ops::range"):
        k = i.a[0].split("::")[-1]
        if k == "Range":
            return i.a[2], i.a[3]
        if k == "RangeTo":
            return ZERO, i.a[2]
        if k == "RangeFrom":
            return i.a[2], n
        if k == "RangeFull":
            return ZERO, n
        if k == "RangeInclusive":
            return i.a[2], add(i.a[3], ONE)
        if k == "RangeToInclusive":
            return ZERO, add(i.a[2], ONE)
    return None


@model("[T]::get_unchecked", "[T]::get_unchecked_mut")
def _getu(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    r = rng(eng, st, args[1], n)
    if r:
        eng.log(st, "unsafe", "get_unchecked", le(r[1], n), eng.known(st, le(r[1], n)), args[0], r)
        return [(st, mkref(c, list(p) + [ps(*r)]))]
    cond = lt(args[1], eng.arrlen.get(args[0], n))
    eng.log(st, "unsafe", "get_unchecked", cond, eng.known(st, cond), args[0], args[1])
    return [(st, mkref(c, list(p) + [pi(args[1])]))]


@model("[T]::get", "[T]::get_mut")
def _get(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    r = rng(eng, st, args[1], n)
    cond = le(r[1], n) if r else lt(args[1], n)
    res = []
    for s, b in eng.fork(st, cond):
        res.append((s, some(mkref(c, list(p) + [ps(*r) if r else pi(args[1])])) if b else NONE))
    return res


@model("Index::index", "IndexMut::index_mut")
def _index(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    r = rng(eng, st, args[1], n)
    cond = and_(le(r[0], r[1]), le(r[1], n)) if r else lt(args[1], n)
    res = []
    for s, b in eng.fork(st, cond):
        if b:
            res.append((s, mkref(c, list(p) + [ps(*r) if r else pi(args[1])])))
        else:
            res.append(pan(eng, s, "index out of bounds", "index"))
    return res


def endref(which):
    def h(eng, fr, st, fn, args, t):
        n = seqlen(eng, st, args[0])
        c, p = place_of(args[0])
        i = ZERO if which == "first" else sub(n, ONE)
        res = []
        for s, b in eng.fork(st, eq(n, ZERO)):
            res.append((s, NONE if b else some(mkref(c, list(p) + [pi(i)]))))
        return res
    return h


for _n in ("[T]::first", "[T]::first_mut", "Vec::first"):
    MODELS[_n] = endref("first")
for _n in ("[T]::last", "[T]::last_mut"):
    MODELS[_n] = endref("last")


@model("[T]::split_at", "[T]::split_at_mut", "[T]::split_at_unchecked", "[T]::split_at_mut_unchecked")
def _splitat(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    m = args[1]
    res = []
    for s, b in eng.fork(st, le(m, n)):
        if b:
            res.append((s, tup(mkref(c, list(p) + [ps(ZERO, m)]), mkref(c, list(p) + [ps(m, n)]))))
        else:
            res.append(pan(eng, s, "split_at", "index"))
    return res


@model("[T]::split_first_mut", "[T]::split_first", "[T]::split_last", "[T]::split_last_mut")
def _splitfirst(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    res = []
    for s, b in eng.fork(st, eq(n, ZERO)):
        if b:
            res.append((s, NONE))
        elif "first" in fn["name"]:
            res.append((s, some(tup(mkref(c, list(p) + [pi(ZERO)]), mkref(c, list(p) + [ps(ONE, n)])))))
        else:
            m = sub(n, ONE)
            res.append((s, some(tup(mkref(c, list(p) + [pi(m)]), mkref(c, list(p) + [ps(ZERO, m)])))))
    return res


@model("[T]::as_ptr", "[T]::as_mut_ptr", "Vec::as_ptr", "Vec::as_mut_ptr", "*const::cast", "*mut::cast", "*mut::cast_const", "*const::cast_mut",
       "NonNull::as_ptr", "NonNull::new_unchecked")
def _asptr(eng, fr, st, fn, args, t):
    if "cast" in fn["name"] or "NonNull" in fn["path"]:
        return [(st, args[0])]
    c, p = place_of(args[0])
    return [(st, mkref(c, list(p) + [pi(ZERO)]))]


@model("*mut::is_null", "*const::is_null")
def _isnull(eng, fr, st, fn, args, t):
    return [(st, FALSE)]


@model("Vec::as_slice", "Vec::as_mut_slice", "[T]::as_slice", "[T]::as_mut_slice", "array::as_slice", "array::as_mut_slice", "Vec::leak", "array::each_ref")
def _asslice(eng, fr, st, fn, args, t):
    return [(st, args[0])]


@model("*mut::add", "*const::add", "*mut::offset", "*const::offset", "*mut::wrapping_add", "*const::wrapping_add")
def _padd(eng, fr, st, fn, args, t):
    return [(st, eng.ptradd(args[0], args[1]))]


@model("*mut::sub", "*const::sub")
def _psub(eng, fr, st, fn, args, t):
    return [(st, eng.ptradd(args[0], neg(args[1])))]


@model("*const::offset_from", "*mut::offset_from", "*const::sub_ptr", "*const::offset_from_unsigned", "*const::byte_offset_from", "*mut::offset_from_unsigned")
def _offset(eng, fr, st, fn, args, t):
    a, b = args
    if a.op == "ref" and b.op == "ref" and a.a[-1].op == "pi" and b.a[-1].op == "pi" and a.a[:-1] == b.a[:-1]:
        return [(st, sub(a.a[-1].a[0], b.a[-1].a[0]))]
    return [(st, raw("ptrdiff", a, b))]


@model("*mut::write", "ptr::write")
def _pwrite(eng, fr, st, fn, args, t):
    eng.ptruse(st, args[0])
    eng.storep(st, args[0], args[1])
    return [(st, UNIT)]


@model("*mut::read", "*const::read", "ptr::read", "*const::as_ref", "*mut::as_ref", "*mut::as_mut")
def _pread(eng, fr, st, fn, args, t):
    eng.ptruse(st, args[0])
    if fn["name"].startswith("as_"):
        return [(st, some(args[0]))]
    return [(st, eng.load(st, args[0]))]


@model("*mut::swap")
def _pswap(eng, fr, st, fn, args, t):
    eng.ptruse(st, args[0])
    eng.ptruse(st, args[1])
    return _swap(eng, fr, st, fn, args, t)


@model("ptr::copy_nonoverlapping", "*const::copy_to_nonoverlapping", "*mut::copy_from_nonoverlapping", "ptr::copy", "*mut::copy_from", "*const::copy_to")
def _copy(eng, fr, st, fn, args, t):
    if "copy_from" in fn["name"]:
        dst, src, n = args
    else:
        src, dst, n = args
    return copyrange(eng, st, dst, src, n)


def copyrange(eng, st, dst, src, n):
    dc, dp = place_of(dst)
    sc, sp_ = place_of(src)
    if dp and dp[-1].op == "pi" and sp_ and sp_[-1].op == "pi":
        for x in (dst, src):
            v = eng.read(st, x.a[0], x.a[1:-1])
            e = le(add(x.a[-1].a[0], n), len_(v))
            eng.log(st, "unsafe", "pointer copy", e, eng.known(st, e), v, sub(add(x.a[-1].a[0], n), ONE))
        if n is ONE:
            eng.storep(st, dst, eng.load(st, src))
            return [(st, UNIT)]
        srcv = eng.read(st, sc, sp_[:-1])
        j = bv()
        old = eng.read(st, dc, dp[:-1])
        d0, s0 = dp[-1].a[0], sp_[-1].a[0]
        new = bind("arrlam", j, d0, add(d0, n), idx(srcv, add(s0, sub(j, d0))), old)
        eng.write(st, dc, dp[:-1], new)
        return [(st, UNIT)]
    return NotImplemented


@model("[T]::copy_from_slice", "[T]::clone_from_slice")
def _copyfrom(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    m = seqlen(eng, st, args[1])
    res = []
    for s, b in eng.fork(st, eq(n, m)):
        if not b:
            res.append(pan(eng, s, "copy_from_slice length", "index"))
            continue
        c, p = place_of(args[0])
        src = eng.load(s, args[1])
        if p and p[-1].op == "ps":
            d0, d1 = p[-1].a
            old = eng.read(s, c, p[:-1])
            j = bv()
            eng.write(s, c, p[:-1], bind("arrlam", j, d0, d1, idx(src, sub(j, d0)), old))
        else:
            eng.write(s, c, p, src)
        res.append((s, UNIT))
    return res


@model("[T]::fill")
def _fill(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    eng.write(st, c, p, raw("repeat", args[1], n))
    return [(st, UNIT)]


@model("[T]::swap")
def _sswap(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    n = seqlen(eng, st, args[0])
    a, b = mkref(c, list(p) + [pi(args[1])]), mkref(c, list(p) + [pi(args[2])])
    res = []
    for s, k in eng.fork(st, lt(args[1], n)):
        for s2, k2 in eng.fork(s, lt(args[2], n)) if k else [(s, False)]:
            if not k2:
                res.append(pan(eng, s2, "swap index", "index"))
            else:
                res += _swap(eng, fr, s2, fn, [a, b], t)
    return res


@model("raw::from_raw_parts", "raw::from_raw_parts_mut")
def _frp(eng, fr, st, fn, args, t):
    ptr, n = args
    eng.log(st, "unsafe", "from_raw_parts", TRUE, None, ptr, n)
    if ptr.op == "ref" and ptr.a[-1].op == "pi":
        lo = ptr.a[-1].a[0]
        return [(st, mkref(ptr.a[0], list(ptr.a[1:-1]) + [ps(lo, add(lo, n))]))]
    return [(st, raw("slice", ptr, n))]


@model("Vec::new", "BinaryHeap::new", "VecDeque::new")
def _vnew(eng, fr, st, fn, args, t):
    return [(st, raw("vnew", ZERO))]


def room(eng, st, n):
    """space for n elements is asked for"""
    if eng.arith and n.op != "int":
        eng.log(st, "alloc", n)


@model("Vec::with_capacity", "BinaryHeap::with_capacity", "VecDeque::with_capacity")
def _vcap(eng, fr, st, fn, args, t):
    room(eng, st, args[0])
    return [(st, raw("vnew", args[0]))]


def vcap(v):
    """Guaranteed capacity of a Vec value, or None."""
    while True:
        if v.op == "vnew":
            return v.a[0]
        if v.op in ("store", "setlen", "arrlam"):
            v = v.a[0] if v.op != "arrlam" else v.a[4]
            continue
        if v.op == "repeat":
            return v.a[1]
        return None


@model("Vec::push", "VecDeque::push_back")
def _push(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    eng.log(st, "push", args[0], args[1], v)
    eng.write(st, c, p, raw("vpush", v, args[1]), log=False)
    return [(st, UNIT)]


@model("VecDeque::push_front")
def _pushf(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    eng.log(st, "push", args[0], args[1], v)
    eng.write(st, c, p, raw("vpushf", v, args[1]), log=False)
    return [(st, UNIT)]


@model("Vec::pop", "VecDeque::pop_back", "VecDeque::pop_front")
def _pop(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    n = len_(v)
    res = []
    for s, b in eng.fork(st, eq(n, ZERO)):
        if b:
            eng.log(s, "popnone", args[0])
            res.append((s, NONE))
            continue
        if v.op == "vpush" and fn["name"] != "pop_front":
            x, rest = v.a[1], v.a[0]
        else:
            x = idx(v, sub(n, ONE)) if fn["name"] != "pop_front" else idx(v, ZERO)
            rest = raw("vpopped", v) if fn["name"] != "pop_front" else raw("subseq", v, ONE, n)
        eng.log(s, "pop", args[0], x, v)
        eng.write(s, c, p, rest, log=False)
        res.append((s, some(x)))
    return res


@model("Vec::set_len")
def _setlen(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    eng.log(st, "setlen", args[0], args[1], v)
    eng.write(st, c, p, raw("setlen", v, args[1]), log=False)
    return [(st, UNIT)]


@model("Vec::clear", "BinaryHeap::clear")
def _clear(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    eng.log(st, "clear", args[0], v)
    eng.write(st, c, p, raw("vnew", vcap(v) or ZERO), log=False)
    return [(st, UNIT)]


@model("Vec::truncate")
def _trunc(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    n = len_(v)
    k = eng.known(st, lt(args[1], n))
    eng.log(st, "truncate", args[0], args[1], v)
    eng.write(st, c, p, raw("subseq", v, ZERO, min_(args[1], n)), log=False)
    return [(st, UNIT)]


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "BinaryHeap::reserve")
def _reserve(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    if fn["name"].startswith("reserve"):
        room(eng, st, args[1])
    if fn["name"].startswith("reserve") and v.op == "vnew":
        eng.write(st, c, p, raw("vnew", max_(v.a[0], args[1]) if v.a[0] is not ZERO else args[1]), log=False)
    elif fn["name"].startswith("reserve"):
        eng.reserves = True         # what room that makes is not followed
    return [(st, UNIT)]


@model("Vec::capacity")
def _capacity(eng, fr, st, fn, args, t):
    v = eng.load(st, args[0])
    return [(st, vcap(v) or raw("cap", v))]


@model("Vec::spare_capacity_mut")
def _spare(eng, fr, st, fn, args, t):
    v = eng.load(st, args[0])
    c, p = place_of(args[0])
    cap = vcap(v)
    if cap is None:
        return NotImplemented
    return [(st, mkref(c, list(p) + [ps(len_(v), cap)]))]


@model("vec::from_elem", "from_elem::from_elem")
def _fromelem(eng, fr, st, fn, args, t):
    room(eng, st, args[1])
    return [(st, raw("repeat", args[0], args[1]))]


@model("Vec::resize", "Vec::resize_with")
def _resize(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    if fn["name"] == "resize" and len_(v) is ZERO:
        eng.write(st, c, p, raw("repeat", args[2], args[1]), log=False)
        return [(st, UNIT)]
    return NotImplemented


@model("Vec::swap_remove", "Vec::remove")
def _vremove(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    n = len_(v)
    res = []
    for s, b in eng.fork(st, lt(args[1], n)):
        if not b:
            res.append(pan(eng, s, "remove out of bounds", "index"))
            continue
        if eng.known(s, eq(args[1], sub(n, ONE))) or args[1] is sub(n, ONE):
            rest = v.a[0] if v.op == "vpush" else raw("vpopped", v)
        else:
            rest = raw(fn["name"], v, args[1])
        x = idx(v, args[1])
        eng.log(s, "pop", args[0], x, v)
        eng.write(s, c, p, rest, log=False)
        res.append((s, x))
    return res


@model("Vec::retain", "Vec::retain_mut")
def _retain(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    eng.log(st, "retain", args[0], v)
    if fn["name"] == "retain_mut":
        return NotImplemented
    res = []
    it = agg("it:filter", 0, agg("it:vec", 0, v, ZERO, len_(v)), eng.alloc(st, args[1]))
    for s, x in _collect_into(eng, st, it, None, False):
        if not isinstance(x, Panic):
            eng.write(s, c, p, x, log=False)
            x = UNIT
        res.append((s, x))
    return res


@model("Vec::dedup", "Vec::dedup_by", "Vec::dedup_by_key")
def _dedup(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    eng.log(st, "retain", args[0], v)
    acc = eng.alloc(st, raw("vnew", ZERO))
    f = eng.alloc(st, args[1]) if len(args) > 1 else None
    ca, pa = place_of(acc)

    def same(s, x, y):
        if f is None:
            return [(s, eqv(eng.deep(s, x), eng.deep(s, y)))]
        if fn["name"] == "dedup_by":
            return eng.call_closure(s, f, [eng.alloc(s, x), eng.alloc(s, y)])
        res = []
        for s2, a in eng.call_closure(s, f, [eng.alloc(s, x)]):
            if isinstance(a, Panic):
                res.append((s2, a))
                continue
            for s3, b in eng.call_closure(s2, f, [eng.alloc(s2, y)]):
                res.append((s3, b if isinstance(b, Panic) else eqv(eng.deep(s3, a), eng.deep(s3, b))))
        return res

    def body(s, x):
        res = []
        w = eng.load(s, acc)
        for s1, b in eng.fork(s, eq(len_(w), ZERO)):
            if b:
                eng.write(s1, ca, pa, raw("vpush", w, x), log=False)
                res.append(("back", s1, None))
                continue
            for s2, q in same(s1, x, idx(w, sub(len_(w), ONE))):
                if isinstance(q, Panic):
                    res.append(("panic", s2, q))
                    continue
                for s3, b3 in eng.fork(s2, q):
                    if not b3:
                        eng.write(s3, ca, pa, raw("vpush", eng.load(s3, acc), x), log=False)
                    res.append(("back", s3, None))
        return res
    res = []
    for k, s, x in drive(eng, st, agg("it:vec", 0, v, ZERO, len_(v)), body, "dedup"):
        if k == "exit":
            eng.write(s, c, p, eng.load(s, acc), log=False)
            x = UNIT
        res.append((s, x))
    return res


@model("Vec::append")
def _append(eng, fr, st, fn, args, t):
    w = eng.load(st, args[1])

    def body(s, x):
        c, p = place_of(args[0])
        v = eng.read(s, c, p)
        eng.log(s, "push", args[0], x, v)
        eng.write(s, c, p, raw("vpush", v, x), log=False)
        return [("back", s, None)]
    res = []
    for k, s, x in drive(eng, st, agg("it:vec", 0, w, ZERO, len_(w)), body, "extend"):
        if k == "exit":
            eng.log(s, "drainall", args[1], w)
            eng.storep(s, args[1], raw("vnew", ZERO))
            x = UNIT
        res.append((s, x))
    return res


@model("BinaryHeap::push")
def _hpush(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    h = eng.read(st, c, p)
    eng.log(st, "hpush", args[0], args[1], h)
    # taking the largest element and putting another in its place is one replacement
    eng.write(st, c, p, raw("hreplace", h.a[0], args[1]) if h.op == "hpopped" else raw("hpush", h, args[1]), log=False)
    return [(st, UNIT)]


@model("BinaryHeap::peek", "BinaryHeap::peek_mut")
def _peek(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    h = eng.read(st, c, p)
    res = []
    for s, b in eng.fork(st, eq(len_(h), ZERO)):
        if b:
            res.append((s, NONE))
        else:
            res.append((s, some(mkref(c, list(p) + [PTOP]))))
    return res


@model("BinaryHeap::pop", "PeekMut::pop")
def _hpop(eng, fr, st, fn, args, t):
    if "PeekMut" in fn["path"]:
        return NotImplemented
    c, p = place_of(args[0])
    h = eng.read(st, c, p)
    res = []
    for s, b in eng.fork(st, eq(len_(h), ZERO)):
        if b:
            res.append((s, NONE))
        else:
            eng.log(s, "hpop", args[0], htop(h), h)
            eng.write(s, c, p, raw("hpopped", h), log=False)
            res.append((s, some(htop(h))))
    return res


@model("BinaryHeap::into_sorted_vec")
def _sorted(eng, fr, st, fn, args, t):
    return [(st, raw("sorted", args[0]))]


@model("BinaryHeap::into_vec")
def _hvec(eng, fr, st, fn, args, t):
    return [(st, raw("hvec", args[0]))]


def elem_cmp(eng, st, f, n=2):
    """The value a comparator gives on two arbitrary elements."""
    xs = [raw("elem", i) for i in range(n)]
    s = st.copy()
    refs = [eng.alloc(s, x) for x in xs]
    outs = eng.call_closure(s, f, refs)
    r = None
    vals = []
    for s2, v in outs:
        if isinstance(v, Panic):
            vals.append((guards_since(s2, st), raw("panic")))
        else:
            vals.append((guards_since(s2, st), v))
    return vals


def cmpcases(cm):
    return raw("cmpcases", *[raw("case", v, *[raw("cond", c, b) for c, b in gs]) for gs, v in cm])


def sortkey(c):
    """f(elem 0) for a comparator that compares f(elem 0) with f(elem 1)"""
    if c.op != "cmp":
        return None
    x, y = c.a
    while all(z.op == "agg" and z.a[0] == OPT and z.a[1] == 1 for z in (x, y)):
        x, y = x.a[2], y.a[2]
    e0, e1 = raw("elem", 0), raw("elem", 1)
    if has(x, lambda z: z is e1) or subst(x, {e0: e1}) is not y:
        return None
    return x


def guards_since(s, st):
    return tuple((e.a[0], e.a[1]) for e in s.events(st.log) if e.k == "guard")


@model("[T]::select_nth_unstable_by", "[T]::select_nth_unstable_by_key", "[T]::select_nth_unstable")
def _select(eng, fr, st, fn, args, t):
    n = seqlen(eng, st, args[0])
    c, p = place_of(args[0])
    m = args[1]
    if fn["name"].endswith("_by"):
        cm = elem_cmp(eng, st, args[2])
    elif fn["name"].endswith("key"):
        k = [elem_cmp(eng, st, args[2], 1)]
        e0 = k[0][0][1] if len(k[0]) == 1 else raw("key?")
        cm = [((), raw("cmp", e0, subst(e0, {raw("elem", 0): raw("elem", 1)})))]
    else:
        cm = [((), raw("cmp", raw("elem", 0), raw("elem", 1)))]
    res = []
    for s, b in eng.fork(st, lt(m, n)):
        if not b:
            res.append(pan(eng, s, "select_nth index", "index"))
            continue
        v = eng.read(s, c, p)
        cmpt = cm[0][1] if len(cm) == 1 else cmpcases(cm)
        eng.log(s, "select", args[0], m, cmpt, n)
        eng.write(s, c, p, raw("selected", v, m, cmpt), log=False)
        res.append((s, tup(mkref(c, list(p) + [ps(ZERO, m)]), mkref(c, list(p) + [pi(m)]), mkref(c, list(p) + [ps(add(m, ONE), n)]))))
    return res


@model("[T]::sort_unstable_by", "[T]::sort_by", "[T]::sort", "[T]::sort_unstable", "[T]::sort_by_key", "[T]::sort_unstable_by_key",
       "ParallelSliceMut::par_sort_unstable_by", "ParallelSliceMut::par_sort_by")
def _sort(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    nm = fn["name"]
    if nm.endswith("_by"):
        cm = elem_cmp(eng, st, args[1])
        cmpt = cm[0][1] if len(cm) == 1 else cmpcases(cm)
    elif nm.endswith("_key"):
        k = elem_cmp(eng, st, args[1], 1)
        e0 = k[0][1] if len(k) == 1 else raw("key?")
        cmpt = raw("cmp", e0, subst(e0, {raw("elem", 0): raw("elem", 1)}))
    else:
        cmpt = raw("cmp", raw("elem", 0), raw("elem", 1))
    v = eng.read(st, c, p)
    eng.log(st, "sort", args[0], cmpt)
    x = sortkey(cmpt)
    while x is not None and x.op == "fld" and x.a[1] is None and x.a[2] == 0:
        x = x.a[0]
    if v.op == "hvec" and x is raw("elem", 0):          # the order of the candidates themselves
        eng.write(st, c, p, raw("sorted", v.a[0]), log=False)
        return [(st, UNIT)]
    eng.write(st, c, p, raw("sortedby", v, cmpt), log=False)
    return [(st, UNIT)]


@model("[T]::reverse")
def _reverse(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    eng.write(st, c, p, raw("reversed", eng.read(st, c, p)), log=False)
    return [(st, UNIT)]


# --------------------------------------------------------------------------- iterators
def slice_iter(eng, st, ref):
    return agg("it:slice", 0, ref, ZERO, seqlen(eng, st, ref))


@model("[T]::iter", "[T]::iter_mut", "Vec::iter", "Vec::iter_mut")
def _iter(eng, fr, st, fn, args, t):
    return [(st, slice_iter(eng, st, args[0]))]


@model("BinaryHeap::iter")
def _hiter(eng, fr, st, fn, args, t):
    h = eng.load(st, args[0])
    r = eng.alloc(st, raw("hvec", h))
    return [(st, slice_iter(eng, st, r))]


@model("Vec::drain")
def _drain(eng, fr, st, fn, args, t):
    c, p = place_of(args[0])
    v = eng.read(st, c, p)
    n = len_(v)
    r = rng(eng, st, args[1], n)
    if not (r and r[0] is ZERO and r[1] is n):
        return NotImplemented
    eng.log(st, "drainall", args[0], v)
    eng.write(st, c, p, raw("vnew", ZERO), log=False)
    return [(st, agg("it:vec", 0, v, ZERO, n))]


@model("BinaryHeap::drain", "BinaryHeap::into_iter_sorted")
def _hdrain(eng, fr, st, fn, args, t):
    if fn["name"] != "drain":
        return NotImplemented
    c, p = place_of(args[0])
    h = eng.read(st, c, p)
    eng.write(st, c, p, raw("vnew", ZERO), log=False)
    return [(st, agg("it:vec", 0, raw("hvec", h), ZERO, len_(h)))]


def whole_chunks(n, size):
    """is n a multiple of size by its form?"""
    import alg
    p, q = alg.opoly(n), alg.opoly(size)
    if len(q) != 1:
        return False
    (m, c), = q.items()
    for mono in p:
        left = list(mono)
        for t in m:
            if t not in left:
                return False
            left.remove(t)
    return all((x / c).denominator == 1 for x in p.values())


def nonzero(eng, st, n, what):
    if eng.arith and lt(ZERO, n) is not TRUE:
        eng.log(st, "maypanic", what, lt(ZERO, n))


def chunker(name):
    def h(eng, fr, st, fn, args, t):
        n = seqlen(eng, st, args[0])
        par = "par" in name
        nonzero(eng, st, args[1], "division into pieces of no elements")
        if "exact" in name:
            n = mul(div(n, args[1]), args[1])           # the remainder is left out
        it = agg("it:chunks", 0, args[0], ZERO, n, args[1])
        return [(st, agg("it:par", 0, it) if par else it)]
    return h


for _n in ("[T]::chunks", "[T]::chunks_mut", "[T]::chunks_exact", "[T]::chunks_exact_mut", "ParallelSliceMut::par_chunks_mut",
           "ParallelSlice::par_chunks", "ParallelSliceMut::par_chunks_exact_mut", "ParallelSlice::par_chunks_exact"):
    MODELS[_n] = chunker(_n)


@model("IndexedParallelIterator::chunks")
def _pchunks(eng, fr, st, fn, args, t):
    nonzero(eng, st, args[1], "division into pieces of no elements")
    it = args[0]
    while it.op == "agg" and it.a[0] == "it:par":
        it = it.a[2]
    if it.op == "agg" and it.a[0] == "it:slice" and it.a[3] is ZERO and seqlen(eng, st, it.a[2]) is it.a[4]:
        return [(st, agg("it:par", 0, agg("it:chunks", 0, it.a[2], ZERO, it.a[4], args[1])))]
    return [(st, agg("it:opaque", 0, args[0]))]


def known_length(eng, fr, t, ref):
    """a reference to an array: its length is part of the type"""
    if t["k"] == "array" and ref not in eng.arrlen:
        n = lenconst(t)
        if n.op == "cparam":
            n = fr.cenv.get(n.a[0]) or n
        if n.op in ("int", "cparam"):
            eng.arrlen[ref] = n


def to_iter(eng, fr, st, a, T):
    """IntoIterator on value a of type T (may be None)."""
    if a.op == "agg" and isinstance(a.a[0], str) and (a.a[0].startswith("it:") or a.a[0] == RANGE or a.a[0] == RANGEI):
        return a
    if a.op == "agg" and a.a[0] == "core::ops::range::RangeFrom":
        return agg("it:from", 0, a.a[2])
    if T is not None and T["k"] == "adt" and T["path"] == OPT or (a.op == "agg" and a.a[0] == OPT):
        return agg("it:opt", 0, a)
    if a.op == "ref" or (T is not None and T["k"] in ("ref",)):
        if T is not None and T["k"] == "ref":
            U = fr.types[T["to"]]
            if U["k"] == "adt" and U["path"] == OPT:
                v = eng.load(st, a)
                c, p = place_of(a)
                return agg("it:opt", 0, ite(is_(v, 1), some(mkref(c, list(p) + [pf(1, 0)])), NONE))
            if U["k"] == "adt" and "BinaryHeap" in U["path"]:
                r = eng.alloc(st, raw("hvec", eng.load(st, a)))
                return slice_iter(eng, st, r)
        if T is None or T["k"] == "ref":
            v = eng.load(st, a)
            if v.op == "agg" and isinstance(v.a[0], str) and (v.a[0].startswith("it:") or v.a[0] == RANGE):
                return agg("it:ref", 0, a)
            if T is not None and T["k"] == "ref" and fr.types[T["to"]]["k"] == "ref":
                known_length(eng, fr, fr.types[fr.types[T["to"]]["to"]], v)
                return slice_iter(eng, st, v)
            if T is not None and T["k"] == "ref":
                known_length(eng, fr, fr.types[T["to"]], a)
            return slice_iter(eng, st, a)
    if T is not None and T["k"] == "adt" and "BinaryHeap" in T["path"]:
        return agg("it:vec", 0, raw("hvec", a), ZERO, len_(a))
    if T is not None and T["k"] == "param":
        # an iterator or collection passed generically
        return agg("it:opaque", 0, a)
    if T is not None and (T["k"] == "array" or (T["k"] == "adt" and T["path"].endswith("::Vec"))) or a.op in (
            "vnew", "vpush", "mapseq", "filtseq", "sorted", "repeat", "arrlam", "setlen", "hvec"):
        return agg("it:vec", 0, a, ZERO, len_(a))
    if T is not None and T["k"] == "adt" and "slice::iter::Iter" in T["path"]:
        return a
    return agg("it:opaque", 0, a)


@model("IntoIterator::into_iter")
def _intoiter(eng, fr, st, fn, args, t):
    T = selfty(eng, fr, fn)
    if T is not None and T["k"] == "param":
        T = None
    return [(st, to_iter(eng, fr, st, args[0], T))]


@model("IntoParallelIterator::into_par_iter", "IntoParallelRefIterator::par_iter", "IntoParallelRefMutIterator::par_iter_mut",
       "ParallelBridge::par_bridge")
def _intopar(eng, fr, st, fn, args, t):
    T = selfty(eng, fr, fn)
    if fn["name"] in ("par_iter", "par_iter_mut"):
        return [(st, agg("it:par", 0, slice_iter(eng, st, args[0])))]
    it = to_iter(eng, fr, st, args[0], T)
    return [(st, agg("it:par", 0, agg("it:bridge", 0, it) if fn["name"] == "par_bridge" else it))]


def anyorder(it, v):
    """what is collected from a bridged iterator comes in any order"""
    return raw("anyorder", v) if it.op == "agg" and has(it, lambda x: x.op == "agg" and x.a[0] == "it:bridge") else v


def unpar(it):
    par = False
    if it.op == "agg" and it.a[0] == "it:par":
        return it.a[2], True
    return it, False


def adapt(kind):
    def h(eng, fr, st, fn, args, t):
        it, par = unpar(args[0])
        it = to_iter(eng, fr, st, it, None)
        extra = []
        for a in args[1:]:
            extra.append(a)
        if kind == "enum":
            r = agg("it:enum", 0, it, ZERO)
        elif kind == "zip":
            other, _ = unpar(args[1])
            T2 = None
            if fr is not None and len(fn.get("args") or []) > 1 and fn["args"][1].get("t") is not None:
                T2 = fr.types[fn["args"][1]["t"]]
                if T2["k"] == "param":
                    T2 = None
            r = agg("it:zip", 0, it, to_iter(eng, fr, st, other, T2))
        elif kind == "flat":
            r = agg("it:flat", 0, it, extra[0])
        elif kind == "rev":
            r = agg("it:rev", 0, it)
        elif kind == "copied":
            r = agg("it:copied", 0, it)
        elif kind == "take":
            r = agg("it:take", 0, it, extra[0])
        elif kind == "skip":
            r = skip_it(it, extra[0])
            if r is None:
                return NotImplemented
        elif kind == "chain":
            other, _ = unpar(args[1])
            r = agg("it:chain", 0, it, to_iter(eng, fr, st, other, None))
        elif kind == "fuse":
            r = it
        elif kind == "withmin":
            r = it
        elif kind == "scan":
            r = agg("it:scan", 0, it, eng.alloc(st, extra[0]), extra[1])
        elif kind == "mapinit":
            outs = eng.call_closure(st, extra[0], [])
            if len(outs) != 1 or isinstance(outs[0][1], Panic):
                return NotImplemented
            st = outs[0][0]
            r = agg("it:mapwith", 0, it, eng.alloc(st, outs[0][1]), extra[1])
        elif kind == "mapwith":
            # one clone of the value per job
            r = agg("it:mapwith", 0, it, eng.alloc(st, extra[0]), extra[1])
        else:
            r = agg("it:" + kind, 0, it, *extra)
        return [(st, agg("it:par", 0, r) if par else r)]
    return h


for _p in ("Iterator::", "IndexedParallelIterator::", "ParallelIterator::", "DoubleEndedIterator::"):
    for _n, _k in (("map", "map"), ("enumerate", "enum"), ("filter", "filter"), ("filter_map", "filter_map"), ("flat_map", "flat"),
                   ("flat_map_iter", "flat"), ("zip", "zip"), ("rev", "rev"), ("copied", "copied"), ("cloned", "copied"), ("take", "take"),
                   ("skip", "skip"), ("chain", "chain"), ("inspect", "inspect"), ("with_min_len", "withmin"), ("with_max_len", "withmin"),
                   ("fuse", "fuse"), ("by_ref", "byref"), ("take_while", "take_while"), ("map_with", "mapwith"), ("scan", "scan"), ("map_while", "map_while"), ("map_init", "mapinit"), ("flatten", "flatten"), ("peekable", "fuse")):
        if _n in ("by_ref",):
            continue
        MODELS[_p + _n] = adapt(_k)


@model("Iterator::flatten")
def _flatten(eng, fr, st, fn, args, t):
    it, par = unpar(args[0])
    it = to_iter(eng, fr, st, it, None)
    if it.op == "agg" and it.a[0] == "it:chunks":       # the elements of successive chunks are those of the slice
        return [(st, agg("it:slice", 0, it.a[2], it.a[3], it.a[4]))]
    return [(st, agg("it:flatten", 0, it))]


@model("Iterator::step_by", "IndexedParallelIterator::step_by")
def _stepby(eng, fr, st, fn, args, t):
    nonzero(eng, st, args[1], "a step of zero")
    it, par = unpar(args[0])
    if it.op == "agg" and it.a[0] == RANGE:
        r = agg("it:step", 0, it.a[2], it.a[3], args[1])
    elif it.op == "agg" and it.a[0] in ("it:slice", "it:vec"):
        r = agg(it.a[0] + "step", 0, it.a[2], it.a[3], it.a[4], args[1])
    else:
        r = agg("it:opaque", 0, it)
    return [(st, agg("it:par", 0, r) if par else r)]


@model("Iterator::by_ref")
def _byref(eng, fr, st, fn, args, t):
    return [(st, args[0])]


def skip_it(it, n):
    k = it.a[0]
    if k == RANGE:
        return agg(RANGE, 0, min_(add(it.a[2], n), it.a[3]) if False else add(it.a[2], n), it.a[3])
    if k in ("it:slice", "it:vec"):
        l = list(it.a)
        l[3] = add(l[3], n)
        return raw("agg", *l)
    if k == "it:enum" and False:
        return None
    return None


def itlen(it):
    k = it.a[0] if it.op == "agg" else None
    if k == RANGE:
        return sub(it.a[3], it.a[2])
    if k in ("it:slice", "it:vec"):
        return sub(it.a[4], it.a[3])
    if k in ("it:map", "it:enum", "it:rev", "it:copied", "it:par", "it:mapwith"):
        return itlen(it.a[2])
    return None


def fref(ref, i):
    c, p = place_of(ref)
    return mkref(c, list(p) + [pf(None, i)])


class It:
    """next()/next_back() on an iterator held in a place."""

    def __init__(self, eng):
        self.e = eng

    def setf(self, st, ref, i, v):
        c, p = place_of(ref)
        self.e.write(st, c, list(p) + [pf(None, i)], v, log=False)

    def next(self, st, ref, back=False):
        """[(state, kind, item)]  kind: some none retry panic"""
        e = self.e
        it = e.load(st, ref)
        if it.op == "ref":
            return self.next(st, it, back)
        if it.op != "agg":
            raise Imprecise("next on %s" % show(it, 3))
        k = it.a[0]
        f = it.a[2:]
        if k == RANGE:
            res = []
            for s, b in e.fork(st, lt(f[0], f[1])):
                if not b:
                    res.append((s, "none", None))
                elif back:
                    v = sub(f[1], ONE)
                    self.setf(s, ref, 1, v)
                    res.append((s, "some", v))
                else:
                    self.setf(s, ref, 0, add(f[0], ONE))
                    res.append((s, "some", f[0]))
            return res
        if k == "it:step" and not back:
            res = []
            for s, b in e.fork(st, lt(f[0], f[1])):
                if b:
                    self.setf(s, ref, 0, add(f[0], f[2]))
                    res.append((s, "some", f[0]))
                else:
                    res.append((s, "none", None))
            return res
        if k in ("it:slicestep", "it:vecstep") and not back:
            res = []
            for s, b in e.fork(st, lt(f[1], f[2])):
                if not b:
                    res.append((s, "none", None))
                    continue
                self.setf(s, ref, 1, add(f[1], f[3]))
                if k == "it:slicestep":
                    c, p = place_of(f[0])
                    res.append((s, "some", mkref(c, list(p) + [pi(f[1])])))
                else:
                    res.append((s, "some", idx(f[0], f[1])))
            return res
        if k == "it:from":
            self.setf(st, ref, 0, add(f[0], ONE))
            return [(st, "some", f[0])]
        if k in ("it:slice", "it:vec"):
            res = []
            for s, b in e.fork(st, lt(f[1], f[2])):
                if not b:
                    res.append((s, "none", None))
                    continue
                if back:
                    i = sub(f[2], ONE)
                    self.setf(s, ref, 2, i)
                else:
                    i = f[1]
                    self.setf(s, ref, 1, add(f[1], ONE))
                if k == "it:slice":
                    c, p = place_of(f[0])
                    res.append((s, "some", mkref(c, list(p) + [pi(i)])))
                else:
                    res.append((s, "some", idx(f[0], i)))
            return res
        if k == "it:chunks":
            res = []
            sl, pos, end, size = f
            for s, b in e.fork(st, lt(pos, end)):
                if not b:
                    res.append((s, "none", None))
                    continue
                nx = add(pos, size)
                self.setf(s, ref, 1, nx)
                c, p = place_of(sl)
                hi = nx if whole_chunks(end, size) else min_(nx, end)
                res.append((s, "some", mkref(c, list(p) + [ps(pos, hi)])))
            return res
        if k == "it:windows" and not back:
            res = []
            sl, pos, end, size = f
            for s, b in e.fork(st, le(add(pos, size), end)):
                if not b:
                    res.append((s, "none", None))
                    continue
                self.setf(s, ref, 1, add(pos, ONE))
                c, p = place_of(sl)
                res.append((s, "some", mkref(c, list(p) + [ps(pos, add(pos, size))])))
            return res
        if k == "it:repeat":
            return [(st, "some", f[0])]
        if k == "it:fn":
            res = []
            for s, v in e.call_closure(st, fref(ref, 0), []):
                if isinstance(v, Panic):
                    res.append((s, "panic", v))
                elif f[1] is FALSE:
                    res.append((s, "some", v))
                else:
                    for s2, b in e.fork(s, is_(v, 1)):
                        res.append((s2, "some", fld(v, 1, 0)) if b else (s2, "none", None))
            return res
        if k == "it:opt":
            res = []
            for s, b in e.fork(st, is_(f[0], 1)):
                if b:
                    self.setf(s, ref, 0, NONE)
                    res.append((s, "some", fld(f[0], 1, 0)))
                else:
                    res.append((s, "none", None))
            return res
        if k == "it:rev":
            return self.next(st, fref(ref, 0), not back)
        if k in ("it:par", "it:ref", "it:bridge"):
            return self.next(st, f[0] if k == "it:ref" else fref(ref, 0), back)
        inner = fref(ref, 0)
        if k == "it:zip":
            res = []
            for s, kd, x in self.next(st, inner, back):
                if kd != "some":
                    res.append((s, kd, x))
                    continue
                for s2, kd2, y in self.next(s, fref(ref, 1), back):
                    res.append((s2, kd2, tup(x, y) if kd2 == "some" else y))
            return res
        if k == "it:take":
            res = []
            for s, b in e.fork(st, eq(f[1], ZERO)):
                if b:
                    res.append((s, "none", None))
                else:
                    self.setf(s, ref, 1, sub(f[1], ONE))
                    res.extend(self.next(s, inner, back))
            return res
        if k in ("it:map", "it:enum", "it:filter", "it:filter_map", "it:flat", "it:copied", "it:inspect", "it:mapwith", "it:take_while", "it:flatten", "it:map_while", "it:scan"):
            res = []
            if k == "it:enum" and back:
                raise Imprecise("reversed enumerate")
            for s, kd, x in self.next(st, inner, back):
                if kd != "some":
                    res.append((s, kd, x))
                    continue
                if k == "it:copied":
                    res.append((s, "some", e.load(s, x)))
                elif k == "it:enum":
                    n = e.load(s, fref(ref, 1))
                    self.setf(s, ref, 1, add(n, ONE))
                    res.append((s, "some", tup(n, x)))
                elif k == "it:flatten":
                    for s3, b in e.fork(s, is_(x, 1 if not (x.op == "agg" and x.a[0] == RES) else 0)):
                        res.append((s3, "some", fld(x, 1, 0)) if b else (s3, "retry", None))
                elif k in ("it:filter", "it:inspect", "it:take_while"):
                    cell = e.alloc(s, x)
                    for s2, v in e.call_closure(s, fref(ref, 1), [cell]):
                        if isinstance(v, Panic):
                            res.append((s2, "panic", v))
                        elif k == "it:inspect":
                            res.append((s2, "some", x))
                        else:
                            for s3, b in e.fork(s2, v):
                                res.append((s3, "some", x) if b else (s3, "retry" if k == "it:filter" else "none", None))
                else:
                    two = k in ("it:mapwith", "it:scan")
                    args = [f[1], x] if two else [x]
                    fi = 2 if two else 1
                    for s2, v in e.call_closure(s, fref(ref, fi), args):
                        if isinstance(v, Panic):
                            res.append((s2, "panic", v))
                        elif k in ("it:map", "it:mapwith"):
                            res.append((s2, "some", v))
                        else:
                            if k == "it:flat" and not (v.op == "agg" and v.a[0] == OPT or v.op == "ite"):
                                raise Imprecise("flat_map to an iterator")
                            for s3, b in e.fork(s2, is_(v, 1)):
                                res.append((s3, "some", fld(v, 1, 0)) if b else (s3, "none" if k in ("it:map_while", "it:scan") else "retry", None))
            return res
        raise Imprecise("iterator %s" % k)


def drive(eng, st, it, body, kind, first=None):
    """Internal iteration: body(state, item) -> [(outcome, state, extra)].  Returns the summary's
    [(kind, state, extra)]."""
    it, par = unpar(it)
    if it.op == "agg" and it.a[0] == "it:chain":
        res = []
        for k, s, x in drive(eng, st, it.a[2], body, kind):
            if k == "exit":
                res.extend(drive(eng, s, it.a[3], body, kind))
            else:
                res.append((k, s, x))
        return res
    if it.op == "agg" and it.a[0] == "it:flat" :
        try_opt = False
    cell = eng.alloc(st, it) if it.op != "ref" else it
    key, sp = eng.fnkey, eng.sp
    nx = It(eng)

    def step(s):
        eng.fnkey, eng.sp = key, sp
        res = []
        for s1, kd, x in nx.next(s, cell):
            if kd == "none":
                res.append(("exit", s1, None))
            elif kd == "retry":
                res.append(("back", s1, None))
            elif kd == "panic":
                res.append(("panic", s1, x))
            else:
                res.extend(body(s1, x))
        return res
    return eng.summarise(st, step, kind + (":par" if par else ""), key, sp, par)


def opaque_it(it):
    return has(it, lambda x: x.op == "agg" and x.a[0] == "it:opaque")


@model("Iterator::next", "DoubleEndedIterator::next_back")
def _next(eng, fr, st, fn, args, t):
    it = eng.deep(st, args[0])
    if it.op == "agg" and opaque_it(it):
        return NotImplemented
    res = []
    for s, k, x in It(eng).next(st, args[0], fn["name"] == "next_back"):
        if k == "some":
            res.append((s, some(x)))
        elif k == "none":
            res.append((s, NONE))
        elif k == "retry":
            res.append((s, RETRY))
        else:
            res.append((s, x))
    return res


def arg_iter(eng, st, a):
    if a.op == "ref":
        return a
    return a


@model("Iterator::for_each", "ParallelIterator::for_each")
def _foreach(eng, fr, st, fn, args, t):
    f = eng.alloc(st, args[1])

    def body(s, x):
        return [(("panic", s2, v) if isinstance(v, Panic) else ("back", s2, None)) for s2, v in eng.call_closure(s, f, [x])]
    return [(s, UNIT if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "for_each")]


@model("ParallelIterator::for_each_with")
def _foreachw(eng, fr, st, fn, args, t):
    f = eng.alloc(st, args[2])
    w = eng.alloc(st, args[1])

    def body(s, x):
        return [(("panic", s2, v) if isinstance(v, Panic) else ("back", s2, None)) for s2, v in eng.call_closure(s, f, [w, x])]
    return [(s, UNIT if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "for_each")]


@model("Iterator::try_for_each", "ParallelIterator::try_for_each", "ParallelIterator::try_for_each_with")
def _tryforeach(eng, fr, st, fn, args, t):
    withv = fn["name"].endswith("with")
    f = eng.alloc(st, args[2 if withv else 1])
    w = eng.alloc(st, args[1]) if withv else None

    def body(s, x):
        res = []
        for s2, v in eng.call_closure(s, f, [w, x] if withv else [x]):
            if isinstance(v, Panic):
                res.append(("panic", s2, v))
                continue
            o = v.op == "agg" and v.a[0] == OPT
            k = 1 if o else 0
            for s3, b in eng.fork(s2, is_(v, k)):
                res.append(("back", s3, None) if b else ("ret", s3, NONE if o else err(fld(v, 1, 0))))
        return res
    return [(s, ok(UNIT) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "try_for_each")]


@model("Iterator::fold")
def _fold(eng, fr, st, fn, args, t):
    acc = eng.alloc(st, args[1])
    f = eng.alloc(st, args[2])

    def body(s, x):
        res = []
        for s2, v in eng.call_closure(s, f, [eng.load(s, acc), x]):
            if isinstance(v, Panic):
                res.append(("panic", s2, v))
            else:
                c, p = place_of(acc)
                eng.write(s2, c, p, v, log=False)
                res.append(("back", s2, None))
        return res
    return [(s, eng.load(s, acc) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "fold")]


@model("Iterator::try_fold")
def _tryfold(eng, fr, st, fn, args, t):
    acc = eng.alloc(st, args[1])
    f = eng.alloc(st, args[2])
    opt = [False]

    def body(s, x):
        res = []
        for s2, v in eng.call_closure(s, f, [eng.load(s, acc), x]):
            if isinstance(v, Panic):
                res.append(("panic", s2, v))
                continue
            o = v.op == "agg" and v.a[0] == OPT
            opt[0] = o
            k = 1 if o else 0
            for s3, b in eng.fork(s2, is_(v, k)):
                if b:
                    c, p = place_of(acc)
                    eng.write(s3, c, p, fld(v, k, 0), log=False)
                    res.append(("back", s3, None))
                else:
                    res.append(("ret", s3, NONE if o else err(fld(v, 1, 0))))
        return res
    return [(s, (some if opt[0] else ok)(eng.load(s, acc)) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "fold")]


def accum(op, init):
    def h(eng, fr, st, fn, args, t):
        i = init
        if fr is not None and len(t) > 5 and t[5] is not None and fr.types[t[5]]["k"] == "int":
            i = I(int(init.a[0]))
        acc = eng.alloc(st, i)

        def body(s, x):
            c, p = place_of(acc)
            eng.write(s, c, p, mk(op, eng.load(s, acc), eng.deep(s, x)), log=False)
            return [("back", s, None)]
        return [(s, eng.load(s, acc) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "sum")]
    return h


MODELS["Iterator::sum"] = MODELS["ParallelIterator::sum"] = accum("add", F(0.0))
MODELS["Iterator::product"] = accum("mul", F(1.0))


def minmax(op):
    def h(eng, fr, st, fn, args, t):
        acc = eng.alloc(st, NONE)

        def body(s, x):
            res = []
            a = eng.load(s, acc)
            c, p = place_of(acc)
            xv = eng.deep(s, x)
            for s1, b in eng.fork(s, is_(a, 1)):
                eng.write(s1, c, p, some(mk(op, fld(a, 1, 0), xv)) if b else some(xv), log=False)
                res.append(("back", s1, None))
            return res
        return [(s, eng.load(s, acc) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, op)]
    return h


MODELS["Iterator::min"] = MODELS["ParallelIterator::min"] = minmax("min")
MODELS["Iterator::max"] = MODELS["ParallelIterator::max"] = minmax("max")


def quant(kind):
    def h(eng, fr, st, fn, args, t):
        f = eng.alloc(st, args[1])

        def body(s, x):
            res = []
            arg = x
            if kind == "find":
                arg = eng.alloc(s, x)
            for s2, v in eng.call_closure(s, f, [arg]):
                if isinstance(v, Panic):
                    res.append(("panic", s2, v))
                    continue
                if kind == "find_map":
                    for s3, b in eng.fork(s2, is_(v, 1)):
                        res.append(("ret", s3, v) if b else ("back", s3, None))
                    continue
                for s3, b in eng.fork(s2, v):
                    if kind == "any":
                        res.append(("ret", s3, TRUE) if b else ("back", s3, None))
                    elif kind == "all":
                        res.append(("back", s3, None) if b else ("ret", s3, FALSE))
                    elif kind == "find":
                        res.append(("ret", s3, some(x)) if b else ("back", s3, None))
            return res
        dflt = {"any": FALSE, "all": TRUE, "find": NONE, "find_map": NONE}[kind]
        return [(s, dflt if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, kind)]
    return h


for _k in ("any", "all", "find", "find_map"):
    MODELS["Iterator::" + _k] = quant(_k)
for _k in ("any", "all"):
    MODELS["ParallelIterator::" + _k] = quant(_k)
MODELS["ParallelIterator::find_any"] = MODELS["ParallelIterator::find_first"] = quant("find")
MODELS["ParallelIterator::find_map_any"] = MODELS["ParallelIterator::find_map_first"] = quant("find_map")


@model("Iterator::position")
def _position(eng, fr, st, fn, args, t):
    f = eng.alloc(st, args[1])
    it = eng.load(st, args[0]) if args[0].op == "ref" else args[0]

    def body(s, x):
        res = []
        for s2, v in eng.call_closure(s, f, [fld(x, None, 1)]):
            if isinstance(v, Panic):
                res.append(("panic", s2, v))
                continue
            for s3, b in eng.fork(s2, v):
                res.append(("ret", s3, some(fld(x, None, 0))) if b else ("back", s3, None))
        return res
    return [(s, NONE if k == "exit" else x) for k, s, x in drive(eng, st, agg("it:enum", 0, it, ZERO), body, "position")]


@model("Iterator::last")
def _last(eng, fr, st, fn, args, t):
    acc = eng.alloc(st, NONE)

    def body(s, x):
        c, p = place_of(acc)
        eng.write(s, c, p, some(x), log=False)
        return [("back", s, None)]
    return [(s, eng.load(s, acc) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "last")]


@model("Iterator::nth")
def _nth(eng, fr, st, fn, args, t):
    it = eng.load(st, args[0])
    if it.op != "agg":
        return NotImplemented
    w = skip_it(it, args[1])
    if w is None:
        return NotImplemented
    eng.storep(st, args[0], w)
    return [(s, some(x) if k == "some" else NONE if k == "none" else RETRY if k == "retry" else x) for k, s, x in
            ((k, s, x) for s, k, x in It(eng).next(st, args[0]))]


def extreme(largest, key):
    """min_by, max_by, min_by_key, max_by_key: the first smallest, the last largest"""
    def h(eng, fr, st, fn, args, t):
        acc = eng.alloc(st, NONE)
        f = eng.alloc(st, args[1])

        def body(s, x):
            res = []
            c, p = place_of(acc)
            a = eng.load(s, acc)
            for s0, kx in (eng.call_closure(s, f, [eng.alloc(s, x)]) if key else [(s, None)]):
                if isinstance(kx, Panic):
                    res.append(("panic", s0, kx))
                    continue
                new = some(tup(kx, x) if key else x)
                for s1, b in eng.fork(s0, is_(a, 1)):
                    if not b:
                        eng.write(s1, c, p, new, log=False)
                        res.append(("back", s1, None))
                        continue
                    old = fld(a, 1, 0)
                    if key:
                        ko, kn = eng.deep(s1, fld(old, None, 0)), eng.deep(s1, kx)
                        outs = [(s1, lt(kn, ko) if not largest else not_(lt(kn, ko)))]
                    else:
                        outs = [(s2, v if isinstance(v, Panic) else ordtest(v, "gt" if not largest else "le"))
                                for s2, v in eng.call_closure(s1, f, [eng.alloc(s1, old), eng.alloc(s1, x)])]
                    for s2, v in outs:
                        if isinstance(v, Panic):
                            res.append(("panic", s2, v))
                            continue
                        for s3, take in eng.fork(s2, v):
                            if take:
                                eng.write(s3, c, p, new, log=False)
                            res.append(("back", s3, None))
            return res
        res = []
        for k, s, x in drive(eng, st, args[0], body, "max" if largest else "min"):
            if k != "exit":
                res.append((s, x))
                continue
            a = eng.load(s, acc)
            if not key:
                res.append((s, a))
                continue
            for s1, b in eng.fork(s, is_(a, 1)):
                res.append((s1, some(fld(fld(a, 1, 0), None, 1)) if b else NONE))
        return res
    return h


for _p in ("Iterator::", "ParallelIterator::"):
    for _l in (False, True):
        for _k in (False, True):
            MODELS[_p + ("max" if _l else "min") + ("_by_key" if _k else "_by")] = extreme(_l, _k)


@model("Iterator::partition")
def _itpartition(eng, fr, st, fn, args, t):
    f = eng.alloc(st, args[1])
    acc = [eng.alloc(st, raw("vnew", ZERO)) for _ in range(2)]

    def body(s, x):
        res = []
        for s2, v in eng.call_closure(s, f, [eng.alloc(s, x)]):
            if isinstance(v, Panic):
                res.append(("panic", s2, v))
                continue
            for s3, b in eng.fork(s2, v):
                a = acc[0 if b else 1]
                c, p = place_of(a)
                eng.write(s3, c, p, raw("vpush", eng.load(s3, a), x), log=False)
                res.append(("back", s3, None))
        return res
    return [(s, tup(eng.load(s, acc[0]), eng.load(s, acc[1])) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "partition")]


@model("once::once", "empty::empty", "repeat::repeat", "from_fn::from_fn", "repeat_n::repeat_n", "repeat_with::repeat_with")
def _sources(eng, fr, st, fn, args, t):
    n = fn["name"]
    if n == "once":
        r = agg("it:opt", 0, some(args[0]))
    elif n == "empty":
        r = agg("it:opt", 0, NONE)
    elif n == "repeat":
        r = agg("it:repeat", 0, args[0])
    elif n == "repeat_n":
        r = agg("it:take", 0, agg("it:repeat", 0, args[0]), args[1])
    elif n == "repeat_with":
        r = agg("it:fn", 0, args[0], FALSE)
    else:
        r = agg("it:fn", 0, args[0], TRUE)
    return [(st, r)]


@model("[T]::windows")
def _windows(eng, fr, st, fn, args, t):
    nonzero(eng, st, args[1], "windows of size zero")
    return [(st, agg("it:windows", 0, args[0], ZERO, seqlen(eng, st, args[0]), args[1]))]


@model("Iterator::count")
def _count(eng, fr, st, fn, args, t):
    acc = eng.alloc(st, ZERO)

    def body(s, x):
        c, p = place_of(acc)
        eng.write(s, c, p, add(eng.load(s, acc), ONE), log=False)
        return [("back", s, None)]
    return [(s, eng.load(s, acc) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "count")]


@model("Iterator::reduce")
def _reduce(eng, fr, st, fn, args, t):
    acc = eng.alloc(st, NONE)
    f = eng.alloc(st, args[1])

    def body(s, x):
        res = []
        a = eng.load(s, acc)
        c, p = place_of(acc)
        for s1, b in eng.fork(s, is_(a, 1)):
            if not b:
                eng.write(s1, c, p, some(x), log=False)
                res.append(("back", s1, None))
                continue
            for s2, v in eng.call_closure(s1, f, [fld(a, 1, 0), x]):
                if isinstance(v, Panic):
                    res.append(("panic", s2, v))
                else:
                    eng.write(s2, c, p, some(v), log=False)
                    res.append(("back", s2, None))
        return res
    return [(s, eng.load(s, acc) if k == "exit" else x) for k, s, x in drive(eng, st, args[0], body, "reduce")]


def _collect_into(eng, st, it, wrap, par, init=None):
    acc = eng.alloc(st, init or raw("vnew", ZERO))

    def body(s, x):
        c, p = place_of(acc)
        if wrap is None:
            eng.write(s, c, p, raw("vpush", eng.load(s, acc), x), log=False)
            return [("back", s, None)]
        k = 1 if wrap == OPT else 0
        res = []
        for s1, b in eng.fork(s, is_(x, k)):
            if b:
                eng.write(s1, c, p, raw("vpush", eng.load(s1, acc), fld(x, k, 0)), log=False)
                res.append(("back", s1, None))
            else:
                res.append(("ret", s1, NONE if wrap == OPT else err(fld(x, 1, 0))))
        return res
    w = {None: lambda v: v, OPT: some, RES: ok}[wrap]
    return [(s, w(anyorder(it, eng.load(s, acc))) if k == "exit" else x) for k, s, x in drive(eng, st, it, body, "collect")]


@model("Iterator::collect", "ParallelIterator::collect")
def _collect(eng, fr, st, fn, args, t):
    it, par = unpar(args[0])
    # a collection of a plain sequence is that sequence
    if it.op == "agg" and it.a[0] == "it:vec" and it.a[3] is ZERO and it.a[4] is len_(it.a[2]):
        return [(st, it.a[2])]
    wrap = None
    heap = False
    if fr is not None and len(t) > 5 and t[5] is not None:
        T = fr.types[t[5]]
        if T["k"] == "adt" and T["path"] in (OPT, RES):
            wrap = T["path"]
        if T["k"] == "adt" and "BinaryHeap" in T["path"]:
            heap = True
        if T["k"] == "tuple" or heap:
            return NotImplemented
    return _collect_into(eng, st, args[0], wrap, par)


@model("ParallelIterator::collect_into_vec", "IndexedParallelIterator::collect_into_vec")
def _civ(eng, fr, st, fn, args, t):
    res = []
    for s, v in _collect_into(eng, st, args[0], None, True):
        if not isinstance(v, Panic):
            eng.storep(s, args[1], v)
            v = UNIT
        res.append((s, v))
    return res


@model("Iterator::unzip", "ParallelIterator::unzip")
def _unzip(eng, fr, st, fn, args, t):
    a1 = eng.alloc(st, raw("vnew", ZERO))
    a2 = eng.alloc(st, raw("vnew", ZERO))

    def body(s, x):
        for a, i in ((a1, 0), (a2, 1)):
            c, p = place_of(a)
            eng.write(s, c, p, raw("vpush", eng.load(s, a), fld(x, None, i)), log=False)
        return [("back", s, None)]
    it = args[0]
    return [(s, tup(anyorder(it, eng.load(s, a1)), anyorder(it, eng.load(s, a2))) if k == "exit" else x) for k, s, x in drive(eng, st, it, body, "unzip")]


@model("IndexedParallelIterator::unzip_into_vecs")
def _uziv(eng, fr, st, fn, args, t):
    res = []
    for s, v in _unzip(eng, fr, st, fn, args[:1], t):
        if not isinstance(v, Panic):
            eng.storep(s, args[1], fld(v, None, 0))
            eng.storep(s, args[2], fld(v, None, 1))
            v = UNIT
        res.append((s, v))
    return res


@model("Extend::extend", "Vec::extend_from_slice", "ParallelExtend::par_extend")
def _extend(eng, fr, st, fn, args, t):
    it = args[1]
    if fn["name"] in ("extend", "par_extend"):
        T2 = None
        if fr is not None and len(fn.get("args") or []) > 1:
            for a in fn["args"][1:]:
                if a.get("t") is not None:
                    T2 = fr.types[a["t"]]
            T2 = None if T2 is not None and T2["k"] == "param" else T2
        it = to_iter(eng, fr, st, args[1], eng.optype(fr, t[2][1]) if fr is not None else None)
        if opaque_it(it):
            return NotImplemented
    else:
        it = agg("it:copied", 0, slice_iter(eng, st, args[1]))

    def body(s, x):
        c, p = place_of(args[0])
        v = eng.read(s, c, p)
        eng.log(s, "push", args[0], x, v)
        eng.write(s, c, p, raw("vpush", v, x), log=False)
        return [("back", s, None)]
    res = []
    for k, s, x in drive(eng, st, it, body, "extend"):
        if k == "exit":
            c, p = place_of(args[0])
            v = eng.read(s, c, p)
            w = anyorder(it, v)
            if w is not v:
                eng.write(s, c, p, w, log=False)
        res.append((s, UNIT if k == "exit" else x))
    return res


@model("FnMut::call_mut", "Fn::call", "FnOnce::call_once")
def _call(eng, fr, st, fn, args, t):
    spread = args[1]
    xs = list(spread.a[2:]) if spread.op == "agg" else None
    if xs is None:
        return NotImplemented
    return eng.call_closure(st, args[0], xs)


@model("RangeInclusive::new")
def _ri(eng, fr, st, fn, args, t):
    return [(st, agg(RANGE, 0, args[0], add(args[1], ONE)))]


@model("RangeBounds::contains", "Range::contains", "RangeInclusive::contains")
def _rc(eng, fr, st, fn, args, t):
    r = eng.deep(st, args[0])
    x = eng.deep(st, args[1])
    g = rng(eng, st, r, None) if r.op == "agg" else None
    if r.op == "agg" and r.a[0] == RANGE:
        return [(st, and_(le(r.a[2], x), lt(x, r.a[3])))]
    return NotImplemented


@model("[T]::contains")
def _contains(eng, fr, st, fn, args, t):
    x = eng.deep(st, args[1])
    it = slice_iter(eng, st, args[0])

    def body(s, y):
        res = []
        for s3, b in eng.fork(s, eq(eng.deep(s, y), x)):
            res.append(("ret", s3, TRUE) if b else ("back", s3, None))
        return res
    return [(s, FALSE if k == "exit" else v) for k, s, v in drive(eng, st, it, body, "any")]


import pymodels  # noqa: E402,F401 (registers its models)


MODELS["zip::zip"] = adapt("zip")
