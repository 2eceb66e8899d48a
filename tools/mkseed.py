#!/usr/bin/env python3
"""Plant one bug: mkseed.py SPEC.py  (development tool; not used by any check).

SPEC defines id, prop, file, old, new (or edits=[(file, old, new), ...]), needs, breaks, demo (C++ source).
The patch is applied to /repo, checked (build, stable tests, demo passes without / fails with), the check of
the property is run, and /repo is restored.
"""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = "include/GooseFEM/"
DEMO = '''#!/bin/bash
# exit 0 if the behaviour is right, nonzero otherwise; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r -f -- "$tmp"' EXIT
g++ -std=c++17 -O1 -w %s-I"$PWD/include" -isystem /usr/include/eigen3 '-DGOOSEFEM_VERSION="0"' "$here/demo.cpp" -o "$tmp/demo" || exit 3
%s"$tmp/demo"
'''
PRE = '''#include <cmath>
#include <iostream>
#include <Eigen/Eigen>
#include <GooseFEM/GooseFEM.h>
using namespace GooseFEM;
template <class X, class Y> static int differ(const X& x, const Y& y)
{
    if (!xt::allclose(x, y)) { std::cerr << "got " << x << " expected " << y << "\\n"; return 1; }
    return 0;
}
'''

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def main(spec, nocheck=False):
    d = {}
    exec(open(spec).read(), d)
    edits = d.get("edits") or [(d["file"], d["old"], d["new"])]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo not clean"
    out = f"{ROOT}/seeded/{d['id']}"
    os.makedirs(out, exist_ok=True)
    open(f"{out}/demo.cpp", "w").write((PRE if d.get("pre", True) else "") + d["demo"])
    open(f"{out}/demo.sh", "w").write(DEMO % (d.get("flags", ""), d.get("env", "")))
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]},
              open(f"{out}/meta.json", "w"), indent=1)
    r = sh(f"bash {out}/demo.sh", cwd="/repo")
    print("clean demo:", r.returncode, r.stderr[-1500:] if r.returncode else "")
    ok = r.returncode == 0
    try:
        for f, o, n in edits:
            p = "/repo/" + INC + f
            t = open(p).read()
            k = d.get("count", 1)
            assert t.count(o) == k, (f, o, t.count(o))
            open(p, "w").write(t.replace(o, n))
        sh(f"git -C /repo diff > {out}/patch.diff")
        r = sh(f"bash {out}/demo.sh", cwd="/repo")
        print("patched demo:", r.returncode, r.stderr[-300:])
        ok &= r.returncode != 0 and r.returncode != 3
        r = sh("bash /tmp/tst.sh")
        print(r.stdout.strip())
        ok &= "missing: []" in r.stdout
        if ok and not nocheck:
            r = sh(f"cd {ROOT} && ./check {d['prop']} quick")
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print("check:", r.returncode, v[:1])
    finally:
        sh("git -C /repo checkout -- .")
    if not ok:
        sh(f"rm -r -f -- {out}")
        print("DISCARDED", d["id"])

if __name__ == "__main__":
    for s in sys.argv[1:]:
        print("==", s)
        main(s)
