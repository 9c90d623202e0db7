"""Programs that must not be accepted by the type checker, each with a twin that must be: they are
type-checked (never run) against the current source."""
import hashlib, json, os, re, shutil, subprocess, fcntl
from core import *
import facts

# what the type checker says when a borrow or a thread rule stops a program
BORROW = {"E0597", "E0505", "E0506", "E0502", "E0499", "E0515", "E0716", "E0521", "E0373", "E0621", "E0713", "E0594", "E0596", "E0382", "E0503", "E0510", "E0310", "E0309", "E0700", "E0712", "E0759"}
THREAD = {"E0277"}

PRE = """#![allow(unused)]
use fnntw::Tree;
use fnntw::point::{Float, Point};
use fnntw::NotNan;
const Q: [f64; 3] = [0.5; 3];
fn input() -> Vec<[f64; 3]> { vec![[0.25; 3]; 10] }
fn shared<X: Send + Sync>() {}
fn look<X>(_: X) {}
"""


class W:
    def __init__(self, name, fn, what, bad, good, need=(), codes=BORROW):
        self.name, self.fn, self.what, self.bad, self.good, self.need, self.codes = name, fn, what, bad, good, need, codes


WS = []


def w(*a, **k):
    WS.append(W(*a, **k))


MAKE = {
    "new": ("Tree::new(&d, 4).unwrap()", "Tree::new"),
    "new_parallel": ("Tree::new_parallel(&d, 4, 1).unwrap()", "Tree::new_parallel"),
    "with_boxsize": ("Tree::new(&d, 4).unwrap().with_boxsize(&[1.0; 3]).unwrap()", "Tree::with_boxsize"),
}
for nm, (mk, fn) in MAKE.items():
    w("outlives-" + nm, fn, "a tree is used after its data has gone out of scope",
      "fn main() { let t; { let d = input(); t = %s; } look(t.query_nearest(&Q).is_ok()); }" % mk,
      "fn main() { let d = input(); let t; { t = %s; } look(t.query_nearest(&Q).is_ok()); }" % mk)
    w("dropped-" + nm, fn, "a tree is used after its data has been dropped",
      "fn main() { let d = input(); let t = %s; drop(d); look(t.query_nearest(&Q).is_ok()); }" % mk,
      "fn main() { let d = input(); let t = %s; look(t.query_nearest(&Q).is_ok()); drop(d); }" % mk)
    w("changed-" + nm, fn, "the data is changed while a tree over it is in use",
      "fn main() { let mut d = input(); let t = %s; d[0][0] = f64::NAN; look(t.query_nearest(&Q).is_ok()); }" % mk,
      "fn main() { let mut d = input(); let t = %s; look(t.query_nearest(&Q).is_ok()); d[0][0] = 0.5; let t = %s; look(t.query_nearest(&Q).is_ok()); }" % (mk, mk))
    w("grown-" + nm, fn, "the vector with the data grows while a tree over it is in use",
      "fn main() { let mut d = input(); let t = %s; d.push([0.5; 3]); look(t.query_nearest_k(&Q, 2).is_ok()); }" % mk,
      "fn main() { let mut d = input(); let t = %s; look(t.query_nearest_k(&Q, 2).is_ok()); d.push([0.5; 3]); }" % mk)
    w("returned-" + nm, fn, "a tree over local data is returned",
      "fn make() -> Tree<'static, f64, 3> { let d = input(); %s } fn main() { look(make()); }" % mk,
      "fn make<'a>(d: &'a Vec<[f64; 3]>) -> Tree<'a, f64, 3> { %s } fn main() { let d = input(); look(make(&d)); }" % mk.replace("&d", "d"))
    w("longer-" + nm, fn, "a tree claims to live longer than its data",
      "fn make<'a, 'b>(d: &'a [[f64; 3]]) -> Tree<'b, f64, 3> { %s } fn main() { look(make(&input())); }" % mk.replace("&d", "d"),
      "fn make<'a: 'b, 'b>(d: &'a [[f64; 3]]) -> Tree<'b, f64, 3> { %s } fn main() { look(make(&input())); }" % mk.replace("&d", "d"))
    w("thread-" + nm, fn, "a tree over local data is handed to a thread that may outlive it",
      "fn main() { let d = input(); let t = %s; std::thread::spawn(move || look(t.query_nearest(&Q).is_ok())); }" % mk,
      "fn main() { let d = input(); let t = %s; std::thread::scope(|s| { s.spawn(|| look(t.query_nearest(&Q).is_ok())); s.spawn(|| look(t.query_nearest(&Q).is_ok())); }); }" % mk)

w("box-longer", "Tree::with_boxsize", "setting a period makes a tree live longer",
  "fn wrap<'a>(t: Tree<'a, f64, 3>) -> Tree<'static, f64, 3> { t.with_boxsize(&[1.0; 3]).unwrap() } fn main() { look(wrap as usize); }",
  "fn wrap<'a>(t: Tree<'a, f64, 3>) -> Tree<'a, f64, 3> { let b = [1.0; 3]; t.with_boxsize(&b).unwrap() } fn main() { let d = input(); look(wrap(Tree::new(&d, 2).unwrap())); }")
w("tree-longer", "Tree", "a tree is taken for one that lives longer",
  "fn grow<'a>(t: Tree<'a, f64, 3>) -> Tree<'static, f64, 3> { t } fn main() { }",
  "fn shrink<'a>(t: Tree<'static, f64, 3>) -> Tree<'a, f64, 3> { t } fn main() { }")
w("get-data-dropped", "Tree::get_data", "the data read back from a tree is used after it has been dropped",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let x = t.get_data(); drop(d); look(x[0][0]); }",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let x = t.get_data(); look(x[0][0]); drop(d); }")
w("get-data-changed", "Tree::get_data", "the data read back from a tree is changed behind its back",
  "fn main() { let mut d = input(); let x; { let t = Tree::new(&d, 4).unwrap(); x = t.get_data().as_ptr(); let y = t.get_data(); d[0][0] = 1.0; look(y[0][0]); } }",
  "fn main() { let mut d = input(); { let t = Tree::new(&d, 4).unwrap(); let y = t.get_data(); look(y[0][0]); } d[0][0] = 1.0; }")
w("get-data-longer", "Tree::get_data", "the data read back from a tree claims to live for ever",
  "fn get<'a>(t: &'a Tree<'a, f64, 3>) -> &'static [[f64; 3]] { t.get_data() } fn main() { }",
  "fn get<'a>(t: &'a Tree<'a, f64, 3>) -> &'a [[f64; 3]] { t.get_data() } fn main() { }")
w("get-data-written", "Tree::get_data", "the data read back from a tree is written through",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); t.get_data()[0][0] = 1.0; look(t.query_nearest(&Q).is_ok()); }",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); look(t.get_data()[0][0]); look(t.query_nearest(&Q).is_ok()); }")
w("query-kept", "Tree::query_nearest", "(only accepted) the query may go once the answer is there",
  None,
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let r = { let q = [0.5; 3]; t.query_nearest(&q).unwrap().0 }; let k = { let q = [0.5; 3]; let n = t.query_nearest_k(&q, 3).unwrap(); n }; look((r, k)); }")
w("many-queries", "Tree::query_nearest_k", "(only accepted) answers of several queries are kept together",
  None,
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let t2 = &t; let a = t.query_nearest(&Q).unwrap(); let b = t2.query_nearest(&[0.1; 3]).unwrap(); let c = t.query_nearest_k(&Q, 2).unwrap(); look((a, b, c)); }")
w("answers-outlive-tree", "Tree::query_nearest_k", "(only accepted) owned answers outlive the tree",
  None,
  "fn main() { let d = input(); let r = { let t = Tree::new(&d, 4).unwrap(); let r = t.query_nearest_k(&Q, 2).unwrap(); r }; look(r.0); }")
w("batch-accepted", "Tree::query_nearest_k_parallel", "(only accepted) batches of queries may go once the answers are there",
  None,
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let r = { let q = input(); let a = t.query_nearest_k_parallel(&q, 3).unwrap(); let b = t.query_nearest_k_parallel_with(&q, 3).unwrap(); let c = t.query_nearest_k_parallel_axis(&q, 3, 0).unwrap(); (a, b, c) }; look(r); }",
  need=("parallel", "no-position"))
w("position-dropped", "Tree::query_nearest", "a returned position is used after the data has been dropped",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let p = t.query_nearest(&Q).unwrap().2; drop(d); look(p[0]); }",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let p = t.query_nearest(&Q).unwrap().2; look(p[0]); drop(d); }",
  need=("!no-position",))
w("position-outlives", "Tree::query_nearest", "a returned position is used after the data has gone out of scope",
  "fn main() { let p; { let d = input(); let t = Tree::new(&d, 4).unwrap(); p = t.query_nearest(&Q).unwrap().2; } look(p[0]); }",
  "fn main() { let d = input(); let p; { let t = Tree::new(&d, 4).unwrap(); p = *t.query_nearest(&Q).unwrap().2; } look(p[0]); }",
  need=("!no-position",))
w("position-changed", "Tree::query_nearest", "the data is changed while a returned position is in use",
  "fn main() { let mut d = input(); let p; let t = Tree::new(&d, 4).unwrap(); p = t.query_nearest(&Q).unwrap().2; d[0][0] = 9.0; look(p[0]); }",
  "fn main() { let mut d = input(); let p; { let t = Tree::new(&d, 4).unwrap(); p = *t.query_nearest(&Q).unwrap().2; } d[0][0] = 9.0; look(p[0]); }",
  need=("!no-position",))
w("position-longer", "Tree::query_nearest", "a returned position claims to live for ever",
  "fn get<'a>(t: &'a Tree<'a, f64, 3>) -> &'static [NotNan<f64>; 3] { t.query_nearest(&Q).unwrap().2 } fn main() { }",
  "fn get<'a>(t: &'a Tree<'a, f64, 3>) -> &'a [NotNan<f64>; 3] { t.query_nearest(&Q).unwrap().2 } fn main() { }",
  need=("!no-position",))
w("position-written", "Tree::query_nearest", "the data is written through a returned position",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let p = t.query_nearest(&Q).unwrap().2; p[0] = p[1]; }",
  "fn main() { let d = input(); let t = Tree::new(&d, 4).unwrap(); let p = t.query_nearest(&Q).unwrap().2; look(p[0] == p[1]); }",
  need=("!no-position",))
w("partition-twice", "moms_seq", "the two sides of a division are used with the whole set",
  "fn two(s: &mut [Point<f64, 3>]) { let (a, m, b) = fnntw::moms::moms_seq(s, None, 0); let x = &mut s[0]; look((a, m, b)); look(x); } fn main() { }",
  "fn two(s: &mut [Point<f64, 3>]) { { let (a, m, b) = fnntw::moms::moms_seq(s, None, 0); look((a, m, b)); } let x = &mut s[0]; look(x); } fn main() { }")
w("partition-longer", "moms_seq", "a side of a division outlives the set",
  "fn side<'a>(s: &'a mut [Point<f64, 3>]) -> &'static mut [Point<f64, 3>] { fnntw::moms::moms_seq(s, None, 0).0 } fn main() { }",
  "fn side<'a>(s: &'a mut [Point<f64, 3>]) -> &'a mut [Point<f64, 3>] { fnntw::moms::moms_seq(s, None, 0).0 } fn main() { }")
w("best-longer", "new_best", "the best candidate claims to live longer than it does",
  "fn best<'a>(q: &[NotNan<f64>; 3], c: &'a Point<f64, 3>, s: &'static Point<f64, 3>) -> &'static Point<f64, 3> { let mut d = 1.0; let mut b: &'static Point<f64, 3> = s; fnntw::distance::new_best(q, c, &mut d, &mut b); b } fn main() { }",
  "fn best<'a>(q: &[NotNan<f64>; 3], c: &'a Point<f64, 3>, s: &'a Point<f64, 3>) -> &'a Point<f64, 3> { let mut d = 1.0; let mut b = s; fnntw::distance::new_best(q, c, &mut d, &mut b); b } fn main() { }")
w("best-short-longer", "new_best_short", "the best candidate claims to live longer than it does",
  "fn best<'a>(q: &[NotNan<f64>; 3], c: &'a [NotNan<f64>; 3], s: &'static [NotNan<f64>; 3]) -> &'static [NotNan<f64>; 3] { let mut d = 1.0; let mut b: &'static [NotNan<f64>; 3] = s; fnntw::distance::new_best_short(q, c, &mut d, &mut b); b } fn main() { }",
  "fn best<'a>(q: &[NotNan<f64>; 3], c: &'a [NotNan<f64>; 3], s: &'a [NotNan<f64>; 3]) -> &'a [NotNan<f64>; 3] { let mut d = 1.0; let mut b = s; fnntw::distance::new_best_short(q, c, &mut d, &mut b); b } fn main() { }")
w("nodes-moved", "Tree", "nodes are moved from a tree to one over other data, which then outlives theirs",
  "fn main() { let d = input(); let mut t = Tree::new(&d, 1).unwrap(); { let e = input(); let mut u = Tree::new(&e, 1).unwrap(); std::mem::swap(&mut t.nodes, &mut u.nodes); } look(t.query_nearest(&Q).is_ok()); }",
  "fn main() { let d = input(); let t = Tree::new(&d, 1).unwrap(); look(t.query_nearest(&Q).is_ok()); }")
w("point-kept", "Point::new", "a point made from an array is used after the array has gone out of scope",
  "fn main() { let q = [NotNan::new(0.5).unwrap(); 3]; let p: Point<f64, 3>; { let a = q; p = Point::new(&a); } let s = Point::new(&q); let mut b = &s; let mut x = 1.0; fnntw::distance::new_best(&q, &p, &mut x, &mut b); }",
  "fn main() { let q = [NotNan::new(0.5).unwrap(); 3]; let a = q; let p: Point<f64, 3>; { p = Point::new(&a); } let s = Point::new(&q); let mut b = &s; let mut x = 1.0; fnntw::distance::new_best(&q, &p, &mut x, &mut b); look(a); }")
# shared between threads only with numbers that may be
for nm, ty in (("Tree", "Tree<'static, T, 3>"), ("Node", "fnntw::Node<T, 3>"), ("Point", "Point<T, 3>")):
    w("shared-" + nm, nm, "a %s of numbers that may not be shared between threads is" % nm,
      "fn any<T: Float>() { shared::<%s>() } fn main() { }" % ty,
      "fn any<T: Float>() { shared::<T>() } fn main() { }", codes=THREAD)
    WS[-1].either = True
w("shared-accepted", "Tree", "(only accepted) trees are shared between threads",
  None,
  "fn main() { shared::<Tree<'static, f64, 3>>(); shared::<Tree<'static, f32, 2>>(); }", codes=THREAD)


def crate_dir(cfg):
    return os.path.join(facts.WORK, "witness", "-".join(sorted(cfg)) or "none")


def typecheck(cfg, progs):
    """{name: (accepted, error codes, first message)} for {name: source}"""
    d = crate_dir(cfg)
    facts.driver()
    facts.ensure_lock()
    os.makedirs(facts.WORK, exist_ok=True)
    with open(os.path.join(facts.WORK, "witness.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256((facts.filehash(facts.source_files()) + json.dumps(sorted(progs.items())) + facts.filehash([__file__])).encode()).hexdigest()
        res = os.path.join(d, "result.json")
        if os.path.exists(res):
            with open(res) as f:
                r = json.load(f)
            if r["h"] == h:
                return {k: tuple(v) for k, v in r["r"].items()}
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "src/bin"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
                    'fnntw = { path = "%s", default-features = false, features = [%s] }\n' % (facts.REPO, ", ".join('"%s"' % x for x in sorted(cfg))))
        lock = os.path.join(facts.REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(d, "Cargo.lock"))
        for k, s in progs.items():
            with open(os.path.join(d, "src/bin", k + ".rs"), "w") as f:
                f.write(PRE + s + "\n")
        env = facts.base_env()
        env["CARGO_TARGET_DIR"] = os.path.join(facts.WORK, "witness-target")
        import glob
        for p in glob.glob(os.path.join(env["CARGO_TARGET_DIR"], "*/.fingerprint/fnntw-*")) + glob.glob(os.path.join(env["CARGO_TARGET_DIR"], "*/.fingerprint/witness-*")):
            shutil.rmtree(p, ignore_errors=True)
        r = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=d, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        got = {k: None for k in progs}
        lib = False
        for l in r.stdout.split("\n"):
            if not l.startswith("{"):
                continue
            m = json.loads(l)
            t = m.get("target", {})
            if m.get("reason") == "compiler-artifact":
                if t.get("name") == "fnntw":
                    lib = True
                if t.get("name") in got and got[t["name"]] is None:
                    got[t["name"]] = (True, [], "")
            elif m.get("reason") == "compiler-message" and t.get("name") in got and m["message"]["level"] == "error":
                c = (m["message"].get("code") or {}).get("code")
                msg = m["message"]["message"]
                if c is None and "lifetime may not live long enough" in msg:
                    c = "E0597"
                if c is None and msg.startswith("aborting due to"):
                    continue
                a = got[t["name"]]
                got[t["name"]] = (False, (a[1] if a and not a[0] else []) + [c or "?"], a[2] if a and not a[0] else msg)
        if not lib:
            raise facts.FactError("the crate does not type-check with the features %s:\n%s" % (",".join(cfg), r.stderr[-3000:]))
        got = {k: v for k, v in got.items() if v is not None}
        with open(res, "w") as f:
            json.dump({"h": h, "r": got}, f)
        return got


def run(obs, prog, cfg):
    ws = [x for x in WS if all((n[1:] not in cfg) if n[0] == "!" else n in cfg for n in x.need)]
    progs = {}
    for x in ws:
        if x.bad:
            progs[x.name + "-bad"] = x.bad
        progs[x.name + "-good"] = x.good
    got = typecheck(cfg, progs)
    where = {}
    for k, b in prog.bodies.items():
        if b.get("exported"):
            where.setdefault(b["name"], (k, b["span"]))
    for x in ws:
        fn = where.get(x.fn.split("::")[-1], (x.fn, ""))
        g = got.get(x.name + "-good")
        b = got.get(x.name + "-bad") if x.bad else None
        add = lambda st, m: obs.add("witness", x.fn, fn[1], st, m)
        obs.note("programs type-checked", 2 if x.bad else 1)
        if g is None or x.bad and b is None:
            add(UNK, "no verdict on the programs for: " + x.what)
            continue
        if getattr(x, "either", False):
            # bad: the structure may be shared; good: its numbers may
            if b[0] and not g[0]:
                add(BAD if all(c in x.codes for c in g[1]) else UNK, x.what)
            else:
                add(OK_, "")
            continue
        if not g[0]:
            if all(c in x.codes for c in g[1]):
                add(BAD, "a correct program is no longer accepted (%s, %s): the twin of '%s'" % (g[1][0], g[2], x.what))
            else:
                add(UNK, "the twin of '%s' does not compile: %s" % (x.what, g[2]))
            continue
        if not x.bad:
            add(OK_, "")
        elif b[0]:
            add(BAD, "a violating program is accepted: " + x.what)
        elif any(c in x.codes for c in b[1]):
            add(OK_, "")
        else:
            add(UNK, "the program for '%s' fails for another reason: %s" % (x.what, b[2]))
