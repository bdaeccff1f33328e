#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...] -- plants the bugs listed in SPEC.py in a scratch copy and keeps those that qualify.

SPEC.py defines BUGS: id -> dict(property, edits=[(file, old, new[, count])], demo=<C++ text>, needs, breaks,
[sources=...], [flags=...]).  A bug is kept (seeded/<id>) when it builds, the stable tests pass with it, and its
demonstration passes on the clean tree and fails with it.  The checks are then run against it and reported."""
import importlib.util, json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
LIB = "bcd_utils bin_utils common_utils crc16 expression_evaluator file_utils modbus_base serial_exc".split()
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0: behaves as specified
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -O0 -Isrc -I"$D" %s "$D/demo.cpp" %s -o "$T/demo" -lpthread || exit 98
cd "$T" && timeout 60 ./demo
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def setup():
    if not os.path.isdir(WT):
        sh("cp -a /repo " + WT)
    sh("git -C %s checkout -q -- . && git -C %s clean -fdq src test" % (WT, WT))
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read()
        s = s.replace("cd /repo", "cd " + WT).replace("R=/repo", "R=" + WT).replace("bash /opt/vp/build.sh", "bash /tmp/wt_build.sh")
        open("/tmp/wt_" + n, "w").write(s)


def tests():
    r = sh("bash /tmp/wt_test.sh /tmp/wt_out.json")
    try:
        d = json.load(open("/tmp/wt_out.json"))
    except Exception:
        return False, "no output"
    st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    miss = st - set(d["passed"])
    return not miss, ",".join(sorted(miss))


def main():
    spec = importlib.util.spec_from_file_location("spec_", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    setup()
    for bid, b in m.BUGS.items():
        if len(sys.argv) > 2 and bid not in sys.argv[2:]:
            continue
        sh("git -C %s checkout -q -- ." % WT)
        d = os.path.join(V, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        srcs = b.get("sources") or ["src/%s.cpp" % x for x in LIB]
        open(d + "/demo.sh", "w").write(b.get("demo_sh") or DEMO_SH % (b.get("flags", ""), " ".join(srcs)))
        os.chmod(d + "/demo.sh", 0o755)
        if b.get("demo"):
            open(d + "/demo.cpp", "w").write(b["demo"])
        for n, t in (b.get("files") or {}).items():
            open(d + "/" + n, "w").write(t)
        r0 = sh("bash %s/demo.sh" % d, cwd=WT)
        bad = None
        for e in b["edits"]:
            p = os.path.join(WT, e[0])
            s = open(p).read()
            if s.count(e[1]) != (e[3] if len(e) > 3 else 1):
                bad = "edit matches %d times: %s" % (s.count(e[1]), e[1][:60])
                break
            open(p, "w").write(s.replace(e[1], e[2]))
        if bad:
            print(bid, "BAD", bad); shutil.rmtree(d); continue
        diff = sh("git -C %s diff" % WT).stdout
        open(d + "/patch.diff", "w").write(diff)
        r1 = sh("bash %s/demo.sh" % d, cwd=WT)
        if r0.returncode != 0 or r1.returncode in (0, 98, 99):
            print(bid, "REJECTED demo clean=%d bug=%d" % (r0.returncode, r1.returncode), (r0.stdout + r0.stderr)[-300:], (r1.stdout + r1.stderr)[-300:] if r1.returncode in (98, 99) else "")
            shutil.rmtree(d)
            continue
        ok, miss = tests()
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        good = r0.returncode == 0 and r1.returncode not in (0, 98, 99) and ok
        if not good:
            print(bid, "REJECTED clean=%d bug=%d tests=%s" % (r0.returncode, r1.returncode, miss), (r0.stdout + r0.stderr)[-600:],
                  (r1.stdout + r1.stderr)[-300:] if r1.returncode in (98, 99) else "")
            shutil.rmtree(d)
            continue
        env = dict(os.environ, WBSA_REPO=WT, WBSA_BUILD="/tmp/wt_build", WBSA_EVIDENCE="/tmp/wt_ev")
        r = subprocess.run(["python3", V + "/checks/run.py", b["property"], "quick"], capture_output=True, text=True, env=env)
        others = []
        if b.get("all"):
            pass
        print(bid, b["property"], "kept,", {1: "CAUGHT", 0: "missed"}.get(r.returncode, "ERROR %d" % r.returncode),
              "" if r.returncode == 1 else (r.stdout + r.stderr)[-400:])
    sh("git -C %s checkout -q -- ." % WT)


main()
