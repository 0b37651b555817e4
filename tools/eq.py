#!/usr/bin/env python3
"""Behaviour-preserving changes (mutants/eq*.txt) against all families at once: eq.py N BASE [ID...]; expects QUIET."""
import sys, re, subprocess
import mutants as M
n, base = sys.argv[1:3]
sel = sys.argv[3:]
fams = "tm,iow,life,blk,wpanic,reent,fault,init,mix,idle,ops,stream,dgram,conn,acc,opsf,streamf,dgramf,connf,accf"
for m in M.load():
    if m["props"] != ["-"] or (sel and m["id"] not in sel and m["file"] not in sel): continue
    try:
        bad = None
        for f, a, b in m["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(a) != 1: bad = "?? %d occurrences of %r" % (t.count(a), a[:60]); break
            open(p, "w").write(t.replace(a, b))
        if not bad:
            x = M.sh("/verif/sim/build.sh")
            if x.returncode: bad = "?? does not build " + x.stdout[-800:]
        if not bad:
            x = M.sh("SIM_STOP=1 /verif/sim/target/debug/simw batch %s %s %s" % (fams, n, base))
            v = [l.strip()[:300] for l in x.stdout.splitlines() if re.match(r"^ *\d+ x ", l)]
            bad = "LOUD " + " | ".join(v) if v or x.returncode else None
        print("%s: %s" % (m["id"], bad or "QUIET"), flush=True)
    finally:
        M.sh("git -C /repo checkout -- .")
