#!/usr/bin/env python3
"""mkseed.py FILE... : makes seeded/<id>/ from a description and confirms it.

A description is a Python file that sets ID, PROPERTY, NEEDS, BREAKS, EDITS
(a list of (file, old, new)) and DEMO (the body of main: ok/bad/tree calls).
The change is applied to /repo, built, tested, demonstrated, and undone; the
property's check is run with it as well (unless --nocheck)."""
import json, os, runpy, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/giron/src/"
DEMO_SH = r'''#!/bin/bash
# Runs in the repository's root; builds demo.rs against giron/ in a scratch directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
giron = { path = "$repo/giron" }
serde_json = "1"
EOF
cd "$tmp"
CARGO_TARGET_DIR="$tmp/target" timeout 250 cargo run --offline --quiet 2>"$tmp/log" || { tail -5 "$tmp/log"; exit 1; }
'''
DEMO_RS = r'''#![allow(dead_code)]
use serde_json::Value;
fn run(module: bool, src: &str) -> Result<Value, String> {
    let s = String::from(src);
    let r = if module { giron::parse_module(s) } else { giron::parse_script(s) };
    match r {
        Ok(n) => Ok(serde_json::to_value(&n).unwrap()),
        Err(e) => Err(serde_json::to_string(&format!("{:?}", e)).unwrap()),
    }
}
fn ok(src: &str) { assert!(run(false, src).is_ok(), "{:?} should be accepted", src); }
fn bad(src: &str) { assert!(run(false, src).is_err(), "{:?} should be rejected", src); }
fn mok(src: &str) { assert!(run(true, src).is_ok(), "{:?} should be accepted as a module", src); }
fn mbad(src: &str) { assert!(run(true, src).is_err(), "{:?} should be rejected as a module", src); }
fn at(src: &str, pointer: &str, want: Value) {
    let t = run(false, src).unwrap();
    assert_eq!(t.pointer(pointer), Some(&want), "{:?} at {}", src, pointer);
}
fn line(src: &str, want: usize) {
    match giron::parse_script(String::from(src)) {
        Ok(_) => panic!("{:?} should be rejected", src),
        Err(e) => assert_eq!(e.line, want, "line of the error in {:?}", src),
    }
}
fn main() {
    std::thread::Builder::new().stack_size(1 << 28).spawn(demo).unwrap().join().map_err(|_| std::process::exit(1)).ok();
}
fn demo() {
%s
}
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def passed(path):
    r = json.load(open(path))
    return r


def one(path, check):
    d = runpy.run_path(path)
    out = os.path.join(ROOT, "seeded", d["ID"])
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("repo dirty")
    os.makedirs(out, exist_ok=True)
    open(out + "/demo.rs", "w").write(DEMO_RS % "\n".join("    " + l for l in d["DEMO"].strip().splitlines()))
    open(out + "/demo.sh", "w").write(DEMO_SH)
    json.dump({"property": d["PROPERTY"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    good = False
    caught = "-"
    try:
        p = sh("bash %s/demo.sh" % out, cwd="/repo")
        if p.returncode:
            print(d["ID"], "DEMO FAILS ON UNCHANGED", p.stdout); return
        for f, a, b in d["EDITS"]:
            s = open(SRC + f).read()
            if s.count(a) != 1:
                print(d["ID"], "edit matches", s.count(a), a); return
            open(SRC + f, "w").write(s.replace(a, b))
        # original lines changed?
        diff = sh("git -C /repo diff -U0").stdout
        open(out + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout)
        p = sh("bash /opt/vp/build.sh")
        if p.returncode:
            print(d["ID"], "DOES NOT BUILD", p.stdout[-1500:]); return
        sh("bash /opt/vp/test.sh /tmp/mkseed.json")
        base, now = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/mkseed.json"))
        get = lambda x: set(x.get("passed") or x.get("pass") or x.get("stable") or [])
        if not get(base) or get(base) - get(now):
            print(d["ID"], "TESTS FAIL", sorted(get(base) - get(now))); return
        p = sh("bash %s/demo.sh" % out, cwd="/repo")
        if p.returncode == 0:
            print(d["ID"], "DEMO PASSES WITH THE PATCH"); return
        msg = [l for l in p.stdout.splitlines() if l.strip()]
        good = True
        if check:
            q = sh("python3 check.py %s" % d["PROPERTY"], cwd=ROOT)
            caught = "CAUGHT" if q.returncode == 1 and "VIOLATION property=" + d["PROPERTY"] in q.stdout else "MISSED exit %d" % q.returncode
            caught += " | " + q.stdout.splitlines()[0][:120]
    finally:
        sh("git -C /repo checkout -- .")
        if not good:
            sh("rm -rf %s" % out)
    removed = [l for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    orig = 0
    for f in set(e[0] for e in d["EDITS"]):
        base = sh("git -C /repo show 585382a:giron/src/" + f).stdout.splitlines()
        orig += sum(1 for l in removed if l[1:] in base)
    print(d["ID"], "ok; removed lines that are original: %d/%d;" % (orig, len(removed)), caught, flush=True)


args = [a for a in sys.argv[1:] if not a.startswith("--")]
for a in args:
    one(a, "--nocheck" not in sys.argv)
