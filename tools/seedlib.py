"""Authoring of planted bugs: bug(...) writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json}."""
import json, os, subprocess, sys, shutil, tempfile
SEEDED = "/verif/seeded"

PRELUDE = r'''
#![allow(unused, dead_code)]
use fnntw::*;
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 }
    fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
}
fn pts<const D: usize>(r: &mut Rng, n: usize) -> Vec<[f64; D]> { (0..n).map(|_| { let mut p = [0.0; D]; for x in p.iter_mut() { *x = r.f(); } p }).collect() }
/// coordinates on a coarse grid: many equal values
fn grid<const D: usize>(r: &mut Rng, n: usize, m: usize) -> Vec<[f64; D]> { (0..n).map(|_| { let mut p = [0.0; D]; for x in p.iter_mut() { *x = r.below(m) as f64 / m as f64; } p }).collect() }
fn d2<const D: usize>(a: &[f64; D], b: &[f64; D]) -> f64 { (0..D).map(|i| (a[i] - b[i]) * (a[i] - b[i])).sum() }
/// all images of q that can matter, q included
fn images<const D: usize>(q: &[f64; D], b: Option<[f64; D]>) -> Vec<[f64; D]> {
    match b { None => vec![*q], Some(b) => (0..1usize << D).map(|m| { let mut p = *q; for i in 0..D { if m >> i & 1 == 1 { p[i] += if q[i] < b[i] / 2.0 { b[i] } else { -b[i] }; } } p }).collect() }
}
/// ascending squared distances of all (point, image) pairs with the point's index
fn brute<const D: usize>(data: &[[f64; D]], q: &[f64; D], b: Option<[f64; D]>) -> Vec<(f64, usize)> {
    let mut v: Vec<(f64, usize)> = vec![];
    for im in images(q, b) { for (i, p) in data.iter().enumerate() { v.push((d2(&im, p), i)); } }
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    v
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs())) }
fn fail(s: String) -> ! { println!("WRONG: {s}"); std::process::exit(1) }
'''

SH = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/demo.rs" "$w/src/main.rs" || exit 3
cat > "$w/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
fnntw = { path = "/repo", default-features = false, features = [@FEATS@] }
[profile.dev]
opt-level = 1
debug-assertions = @DA@
overflow-checks = @DA@
[workspace]
TOML
[ -e /repo/Cargo.lock ] && cp /repo/Cargo.lock "$w/Cargo.lock" || cp /opt/vp/Cargo.lock "$w/Cargo.lock"
cd "$w" || exit 3
export CARGO_TARGET_DIR="$w/t" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cargo build -q --offline || exit 4
timeout 120 "$w/t/debug/demo"
'''


def bug(id, prop, edits, demo, feats=("parallel", "no-position", "sqrt-dist2"), needs="", breaks="", da=False, sh=None, prelude=True):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        for f, old, new in edits:
            p = os.path.join(w, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%s: %d matches in %s for %r" % (id, s.count(old), f, old[:80]))
                return
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    if sh is None:
        open(os.path.join(d, "demo.rs"), "w").write((PRELUDE if prelude else "") + demo)
        sh = SH.replace("@FEATS@", ", ".join('"%s"' % f for f in feats)).replace("@DA@", "true" if da else "false")
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)
