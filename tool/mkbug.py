#!/usr/bin/env python3
"""developer helper: create and confirm planted bugs (seeded/<id>/).

usage: mkbug.py FILE.py [ids...]   FILE.py defines BUGS = [dict(id, property, needs, breaks, edits=[(old, new)], demo)]
For each bug: apply the edits to a scratch copy, write patch.diff, demo.cpp/demo.sh, meta.json, build and run the
stable tests in the copy, run the demo in the pristine and patched copies, then run the property's check on the copy."""
import importlib.util, json, os, shutil, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
clang++-18 -std=c++20 -stdlib=libc++ -g -O1 %s -I"$PWD" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 60 "$T/demo"
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    spec = importlib.util.spec_from_file_location("b", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        d = os.path.join(R, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        t = "/tmp/mkbug_" + b["id"]
        shutil.rmtree(t, ignore_errors=True)
        os.makedirs(t)
        sh("git -C /repo archive HEAD | tar x -C %s" % t)
        p = t + "/zpp_bits.h"
        s = open(p).read()
        for e in b["edits"]:
            old, new = e[:2]
            n = s.count(old)
            if len(e) > 2:
                parts = s.split(old)
                k = e[2]
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
                continue
            if n != 1:
                print(b["id"], "edit matches %d times: %r" % (n, old[:80]))
                return 1
            s = s.replace(old, new)
        open(p, "w").write(s)
        diff = sh("diff -u --label a/zpp_bits.h --label b/zpp_bits.h /repo/zpp_bits.h %s" % p).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cpp", "w").write(b["demo"])
        flags = b.get("flags", "-fsanitize=address,undefined -fno-sanitize-recover=undefined")
        open(d + "/demo.sh", "w").write(DEMO % flags if not b.get("demo_sh") else b["demo_sh"])
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, cwd="/repo")
        r1 = sh("bash %s/demo.sh" % d, cwd=t)
        # tests: build like /opt/vp/build.sh does but in the copy
        tr = sh("bash %s/tool/testcopy.sh %s" % (R, t))
        chk = sh("ZPP_HEADER=%s python3 -m zcheck.run --property %s --tier quick --evidence /tmp/mkbug_ev" % (p, b["property"]), cwd=R)
        vi = [l for l in chk.stdout.split("\n") if l.startswith("  ") and "[" in l]
        print("%s %s: demo base=%d bug=%d, tests %s, check rc=%d %s" % (b["id"], b["property"], r0.returncode, r1.returncode, tr.stdout.strip()[-60:], chk.returncode, (vi[0].strip()[:160] if vi else chk.stdout[-200:] if chk.returncode not in (0, 1) else "")))
        if r0.returncode or not r1.returncode:
            print("   demo output:", r0.stdout[-300:], r0.stderr[-600:], r1.stdout[-200:], r1.stderr[-300:])
        sys.stdout.flush()
        shutil.rmtree(t)


main()
