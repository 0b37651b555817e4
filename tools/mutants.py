#!/usr/bin/env python3
"""Quick mutants without demonstrations (mutants/*.txt): mutants.py [FILE|ID...]. Run from a clean /repo."""
import sys, re, json, subprocess, glob, os
H = os.path.dirname(os.path.abspath(__file__))
J = "/tmp/mut-tests-%d.json" % os.getpid()
ALL = [c["property"] for c in json.load(open(H + "/../MANIFEST.json"))["checks"]]
def load():
    r = []
    for p in sorted(glob.glob(H + "/mutants/*.txt")):
        cur = None; part = None
        for l in open(p).read().split("\n"):
            if l.startswith("# ") and part is None:
                i, props, why = (l[2:].split(" ", 2) + [""])[:3]
                cur = dict(id=i, props=props.split(","), why=why, file=os.path.basename(p)[:-4], edits=[]); r.append(cur)
            elif l.startswith("@ ") and part is None:
                f = l[2:]; part = 1; a = []; b = []
            elif l == "===" and part == 1: part = 2
            elif l == ">>>" and part == 2:
                cur["edits"].append((f, "\n".join(a), "\n".join(b))); part = None
            elif part == 1: a.append(l)
            elif part == 2: b.append(l)
    return r
def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def run(m, tests=True):
    if sh("git -C /repo status --porcelain").stdout.strip():
        print("/repo is not clean"); sys.exit(2)
    out = {}
    try:
        for f, a, b in m["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(a) != 1:
                print("??  %s: %d occurrences of %r" % (m["id"], t.count(a), a[:80])); return
            open(p, "w").write(t.replace(a, b))
        if tests:
            x = sh("bash /opt/vp/build.sh")
            if x.returncode: print("??  %s does not build\n%s" % (m["id"], x.stdout[-1500:])); return
            sh("rm -f " + J); sh("bash /opt/vp/test.sh " + J)
            try:
                j = json.load(open(J))
                st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                bad = [t for t in st if t not in j["passed"]]
            except Exception as e: bad = [str(e)]
            if bad: print("--  %s fails tests %s" % (m["id"], bad[:2]), flush=True); return
        for p in ALL if m["props"] == ["-"] else m["props"]:
            x = sh("/verif/check.sh %s" % p, env=dict(os.environ, SIM_SCALE="40") if m["props"] == ["-"] else None)
            out[p] = (x.returncode, [l[:170] for l in x.stdout.splitlines() if "violation of class" in l or " runs in " in l])
    finally:
        sh("git -C /repo checkout -- .")
    if m["props"] == ["-"]:
        bad = ["%s (exit %d) %s" % (p, rc, " | ".join(msg)) for p, (rc, msg) in out.items() if rc]
        print("%s %s: %s" % ("LOUD" if bad else "QUIET", m["id"], "\n     ".join(bad)), flush=True)
        return
    for p, (rc, msg) in out.items():
        print("%s %s %s: %s" % ("OK " if rc == 1 else "MISS", m["id"], p, " | ".join(msg)), flush=True)
if __name__ == "__main__":
    sel = [x for x in sys.argv[1:] if not x.startswith("-")]
    for m in load():
        if not sel or m["id"] in sel or m["file"] in sel:
            run(m, "-n" not in sys.argv)
