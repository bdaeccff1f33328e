#!/usr/bin/env python3
"""mut.py SPEC.py [NAME...]: runs checks against edits of a scratch copy.  SPEC.py: MUT = [(name, [props], expect, file, old, new)],
expect 1 = the check has to report, 0 = it has to stay quiet.  Prints what differs from the expectation."""
import importlib.util, os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
spec = importlib.util.spec_from_file_location("spec_", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
W = "/tmp/mutw"


def one(a):
    i, (name, props, expect, *e) = a
    d = "%s/%d" % (W, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("build", ".git", "test", "*.o"), symlinks=True)
    subprocess.run(["cp", "-al", V + "/build", d + "/build"])
    edits = e if isinstance(e[0], tuple) else [tuple(e)]
    out = []
    for f, old, new in edits:
        p = d + "/repo/" + f
        s = open(p).read()
        if s.count(old) < 1:
            return "%s: edit not found in %s" % (name, f)
        open(p, "w").write(s.replace(old, new, 1))
    if os.environ.get("SYNTAX", "1") == "1":
        for f, _, _ in edits:
            if f.endswith(".cpp"):
                c = subprocess.run("g++ -std=c++20 -fsyntax-only -w -Isrc -I%s/stubs %s" % (V, f), shell=True, cwd=d + "/repo", capture_output=True, text=True)
                if c.returncode:
                    out.append("%s: does not compile: %s" % (name, c.stderr[:300]))
    env = dict(os.environ, WBSA_REPO=d + "/repo", WBSA_BUILD=d + "/build", WBSA_EVIDENCE=d + "/ev")
    anyof = isinstance(expect, list)      # [1]: one of the checks has to report
    caught = False
    for p in props:
        r = subprocess.run(["python3", V + "/checks/run.py", p], capture_output=True, text=True, env=env)
        got = r.returncode
        und = ""
        try:
            u = json.load(open(d + "/ev/%s.json" % p))["coverage"]["undecided_obligations"]
            und = " undecided %d: %s" % (len(u), "; ".join(o["key"] + " | " + o["detail"][:160] for o in u[:2])) if u else ""
        except Exception as x:
            und = " no evidence"
        if anyof:
            caught |= got == 1
            if got not in (0, 1):
                out.append("%-28s %s exit %d %s" % (name, p, got, (r.stdout + r.stderr)[-300:]))
            elif und and os.environ.get("V"):
                out.append("%-28s %s %d%s" % (name, p, got, und))
            continue
        if got != expect or os.environ.get("V"):
            out.append("%-28s %s exit %d expected %d%s %s" % (name, p, got, expect, und[:500], (r.stdout + r.stderr).strip()[-int(os.environ.get("V", "0") or 0) - 200:] if got == 2 or os.environ.get("V") else ""))
        elif und and not expect:
            out.append("%-28s %s quiet but%s" % (name, p, und[:500]))
        if got == 1 and not expect:
            out.append("    " + r.stdout.strip().split("\n")[0][:400])
    if anyof and not caught:
        out.append("%-28s not caught by %s" % (name, " ".join(props)))
    shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


L = [x for x in enumerate(m.MUT) if len(sys.argv) < 3 or x[1][0].startswith(tuple(sys.argv[2:]))]
with ThreadPoolExecutor(8) as ex:
    n = 0
    for r in ex.map(one, L):
        n += 1
        if r:
            print(r)
print("%d edits tried" % n)
