#!/usr/bin/env python3
"""Author a planted bug: seed.py <spec.py>...   Each spec defines id, prop, needs, breaks, edits
[(file, old, new)], demo (body of main.rs) and optionally parser=True. Works in /tmp/seed/work only."""
import json, os, subprocess, sys
W = "/tmp/seed/work"
OUT = "/verif/seeded"
DEMO = r'''#!/bin/bash
# exit 0: the property holds for this history; nonzero: it does not. Run in the repository.
here=$(dirname "$(readlink -f "$0")")
repo=$PWD
d=$(mktemp -d) || exit 9
trap 'find "$d" -delete' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" || exit 9
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
xml_dom = { path = "$repo", default-features = false%s }
%s[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cd "$d" || exit 9
CARGO_TARGET_DIR="$d/target" timeout 280 cargo run --offline --quiet 2>"$d/log"
r=$?
[ $r = 0 ] || tail -20 "$d/log"
exit $r
'''
PRE = '''#![allow(unused)]
use xml_dom::level2::convert::*;
use xml_dom::level2::ext::convert::*;
use xml_dom::level2::ext::dom_impl::*;
use xml_dom::level2::ext::{NamespacePrefix, Namespaced, ProcessingOptions, XmlDecl, XmlVersion, DocumentDecl};
use xml_dom::level2::*;

fn doc() -> RefNode {
    get_implementation().create_document(None, Some("root"), None).unwrap()
}
'''
def sh(cmd, cwd=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def setup():
    if not os.path.isdir(W):
        assert sh(f"cp -a /repo {W}").returncode == 0
    sh(f"git -C {W} fetch -q /repo && git -C {W} reset -q --hard $(git -C /repo rev-parse HEAD)")
def tests():
    """The stable tests on the copy."""
    r = sh("cargo test --offline --no-default-features --no-fail-fast 2>&1", cwd=W)
    names = set()
    for l in r.stdout.splitlines():
        l = l.strip()
        if l.startswith("test ") and l.endswith("FAILED"):
            names.add(l)
    return r, names
def one(path):
    s = {}
    exec(open(path).read(), s)
    d = os.path.join(OUT, s["id"])
    sh(f"git -C {W} checkout -q -- .")
    base = sh(f"git -C {W} blame -s bbafe96 -- {s['edits'][0][0]} | head -1")
    for f, old, new in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        n = s.get("nth", {}).get(old)
        if n is None:
            if t.count(old) != 1 and not s.get("many"):
                print(s["id"], "EDIT occurs", t.count(old), "times:", old); return
            t = t.replace(old, new)
        else:
            parts = t.split(old)
            t = old.join(parts[:n+1]) + new + old.join(parts[n+1:])
        open(p, "w").write(t)
    patch = sh(f"git -C {W} diff").stdout
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(patch)
    feat = ', features = ["quick_parser"]' if s.get("parser") else ""
    open(f"{d}/demo.sh", "w").write(DEMO % (feat, s["deps"] + "\n" if s.get("deps") else ""))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/main.rs", "w").write(PRE + s["demo"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    # demonstration with and without, tests with
    bad = sh(f"bash {d}/demo.sh", cwd=W)
    r, failed = tests()
    ok = "test result" in r.stdout and not failed and "error" not in [l[:5] for l in r.stdout.splitlines()]
    sh(f"git -C {W} checkout -q -- .")
    good = sh(f"bash {d}/demo.sh", cwd=W)
    # which of the removed lines are original?
    print(s["id"], "clean demo", good.returncode, "patched demo", bad.returncode, "tests", "ok" if ok else f"FAIL {sorted(failed)}")
    if good.returncode: print(good.stdout[-1500:])
    if bad.returncode == 0 or "error" in bad.stdout[:4000]: print(bad.stdout[-800:])
    if not ok: print(r.stdout[-600:])
    if not (good.returncode == 0 and bad.returncode and ok):
        sh(f"find {d} -delete")
        print("   DROPPED")
setup()
for p in sys.argv[1:]:
    one(p)
