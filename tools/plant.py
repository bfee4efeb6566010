#!/usr/bin/env python3
"""Development aid (no check uses it): materialise and confirm a planted bug.

  plant.py make SPEC.py     SPEC defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, what, demo)]
  plant.py test ID... [--nocheck] [--notests]
                            confirm: tests still pass, demo 0 without / nonzero with, which check sees it
Everything runs on a copy of /repo bind-mounted over /repo in a private mount namespace.
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PW = os.environ.get("PW", "/tmp/pw")
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
%s -std=c++20 %s-w -I include -DLEXY_HAS_UNICODE_DATABASE=1 -DLEXY_EXPERIMENTAL=1 "$d/demo.cpp" -o "$t/demo" || exit 3
cd "$t" && timeout 60 "$t/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def reset():
    if not os.path.exists(PW):
        sh("cp -a /repo %s" % PW)
    sh("cd %s && git checkout -q -f -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD" % PW)


def ns(cmd, timeout=1200):
    full = "mount --bind %s /repo && cd /repo && %s" % (PW, cmd)
    return subprocess.run(["unshare", "-m", "bash", "-c", full], text=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, timeout=timeout)


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    ids = []
    for b in g["BUGS"]:
        reset()
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(PW, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT NOT UNIQUE", s.count(old), f, repr(old[:60]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % PW).stdout)
        open(os.path.join(d, "demo.cpp"), "w").write(b["demo"])
        cxx = b.get("cxx", "g++")
        open(os.path.join(d, "demo.sh"), "w").write(b.get("demosh") or DEMO % (cxx, b.get("flags", "") and b["flags"] + " "))
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["what"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ids.append(b["id"])
    reset()
    return ids


def test(ids, nocheck, notests):
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        reset()
        clean = ns("bash %s/demo.sh" % d)
        r = sh("git -C %s apply %s/patch.diff" % (PW, d))
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stdout)
            continue
        bad = ns("bash %s/demo.sh" % d)
        tests = "skipped"
        if not notests:
            ns("bash /opt/vp/test.sh %s/out.json.tmp" % "/tmp")
            o = json.load(open("/tmp/out.json.tmp"))
            b = json.load(open("/opt/vp/BASELINE.json"))
            base = set(b.get("passed") or [b[x] for x in b if isinstance(b[x], list)][0])
            miss = sorted(base - set(o["passed"]))
            tests = "OK" if not miss else "FAIL %d %s" % (len(miss), miss[:3])
        chk = "-"
        if not nocheck:
            c = ns("cd /verif && python3 run.py %s" % prop)
            chk = "CAUGHT" if c.returncode == 1 and "VIOLATION property=%s" % prop in c.stdout else "MISSED rc=%d" % c.returncode
            tail = " | ".join(c.stdout.strip().splitlines()[-4:])[:500]
        print("%-28s %s demo clean=%d bug=%d tests=%s check=%s" % (i, prop, clean.returncode, bad.returncode, tests, chk), flush=True)
        if clean.returncode:
            print(clean.stdout[-1500:])
        if not nocheck:
            print("      ", tail, flush=True)
    reset()


if __name__ == "__main__":
    a = [x for x in sys.argv[2:] if not x.startswith("--")]
    fl = [x for x in sys.argv[2:] if x.startswith("--")]
    if sys.argv[1] == "make":
        ids = make(a[0])
        if "--test" in fl:
            test(ids, "--nocheck" in fl, "--notests" in fl)
    else:
        test(a, "--nocheck" in fl, "--notests" in fl)
