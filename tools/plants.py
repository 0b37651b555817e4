#!/usr/bin/env python3
"""Regenerates /verif/seeded from the specifications in plants/*.rs.

plants.py gen [ID...]    write seeded/ID (patch, demonstration, meta) from plants/ID.rs
plants.py test [ID...]   in /repo: apply, build, run the stable tests, the demonstration with and without, and the check
"""
import sys, os, re, json, subprocess, shutil, glob
H = os.path.dirname(os.path.abspath(__file__))
SEED = "/verif/seeded"

def spec(i):
    """Header of plants/ID.rs: //! key: value lines, then //! edits as FILE, <<<, old, ===, new, >>>."""
    s = {"edits": [], "code": ""}
    cur = None
    for l in open("%s/plants/%s.rs" % (H, i)).read().split("\n"):
        if l.startswith("//! "):
            x = l[4:]
            m = re.match(r"(property|needs|breaks): (.*)", x)
            if m:
                s[m.group(1)] = m.group(2)
            elif x.startswith("edit "):
                cur = [x[5:], [], []]; part = 1
            elif x == "===":
                part = 2
            elif x == ">>>":
                s["edits"].append((cur[0], "\n".join(cur[1]), "\n".join(cur[2]))); cur = None
        elif cur:
            cur[part].append(l)
        else:
            s["code"] += l + "\n"
    return s

def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def gen(i):
    s = spec(i)
    w = "/tmp/plantgen"
    sh("rm -rf /tmp/plantgen; mkdir /tmp/plantgen; git -C /repo archive HEAD | tar -x -C /tmp/plantgen; cd /tmp/plantgen && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm a")
    for f, a, b in s["edits"]:
        t = open("%s/%s" % (w, f)).read()
        if t.count(a) != 1:
            print("%s: %d occurrences of %r" % (i, t.count(a), a)); return False
        open("%s/%s" % (w, f), "w").write(t.replace(a, b))
    d = "%s/%s" % (SEED, i)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(sh("git diff", cwd=w).stdout)
    open(d + "/demo.rs", "w").write("mod kit;\nuse kit::*;\nuse async_io::*;\nuse futures_lite::{future, prelude::*};\nuse std::{future::Future, io::{self, Read, Write}, pin::Pin, sync::{Arc, Mutex, atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst}}, task::{Context, Poll, Wake, Waker}, thread, time::{Duration, Instant}};\n" .replace("mod kit;\n", "#![allow(unused_imports, unused_variables, unused_mut, dead_code)]\nmod kit;\n") + s["code"].lstrip("\n"))
    shutil.copy(H + "/plants/kit.rs", d)
    shutil.copy(H + "/plants/demo.sh", d)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
    shutil.rmtree("/tmp/plantgen", ignore_errors=True)
    return True

def test(i, only_check=False):
    d = "%s/%s" % (SEED, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    r = {"id": i, "property": prop}
    if sh("git -C /repo status --porcelain").stdout.strip():
        print("/repo is not clean"); sys.exit(2)
    if not only_check:
        x = sh("bash %s/demo.sh" % d, cwd="/repo"); r["demo0"] = x.returncode
        if x.returncode: r["out0"] = x.stdout[-300:]
    try:
        x = sh("git -C /repo apply %s/patch.diff" % d)
        if x.returncode: print(i, "does not apply", x.stdout); return
        if not only_check:
            x = sh("bash /opt/vp/build.sh"); r["build"] = x.returncode
            if x.returncode: print(i, x.stdout[-1500:]); return
            x = sh("bash /opt/vp/test.sh /tmp/plant-tests.json")
            try:
                j = json.load(open("/tmp/plant-tests.json"))
                st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                r["failed"] = [t for t in st if t not in j["passed"]]
            except Exception as e: r["failed"] = str(e)
            x = sh("bash %s/demo.sh" % d, cwd="/repo"); r["demo1"] = x.returncode; r["out1"] = x.stdout.strip()[-100:]
        x = sh("/verif/check.sh %s" % prop); r["check"] = x.returncode
        r["msg"] = [l[:150] for l in x.stdout.splitlines() if "violation of class" in l or "VIOLATION" in l or " runs in " in l]
    finally:
        sh("git -C /repo checkout -- .")
    ok = (only_check or r["demo0"] == 0 and not r["failed"] and r["demo1"]) and r["check"] == 1
    print("OK " if ok else "BAD", json.dumps(r)); sys.stdout.flush()

ids = sys.argv[2:] or sorted(os.path.basename(x)[:-3] for x in glob.glob(H + "/plants/*.rs") if not x.endswith("kit.rs"))
for i in ids:
    if sys.argv[1] == "gen": gen(i)
    elif sys.argv[1] == "test": test(i)
    elif sys.argv[1] == "check": test(i, True)
