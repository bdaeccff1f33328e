#!/bin/bash
# edit.sh SPEC NAME: applies one edit of a spec to the scratch worktree /tmp/w
[ -d /tmp/w ] || git -C /repo worktree add -f /tmp/w HEAD >/dev/null 2>&1
git -C /tmp/w checkout -q -f $(git -C /repo rev-parse HEAD)
python3 - "$1" "$2" <<'P'
import sys,importlib.util
sp=importlib.util.spec_from_file_location("s",sys.argv[1]);m=importlib.util.module_from_spec(sp);sp.loader.exec_module(m)
x=[x for x in m.MUT if x[0]==sys.argv[2]][0]
e=x[3:]; e=e if isinstance(e[0],tuple) else [e]
for f,o,n in e:
    p='/tmp/w/'+f; s=open(p).read(); assert o in s; open(p,'w').write(s.replace(o,n,1))
P
