#!/usr/bin/env python3
"""Systematic one-line mutants of /repo's sources: auto.py OUT.jsonl PART PARTS [FILE]. Run in a private copy (it edits /repo).
Each mutant: build the simulator; a few runs of every family; if nothing is reported, the stable tests; if they pass, many more runs."""
import sys, re, json, subprocess, os, random
FAMS = "tm,iow,life,blk,wpanic,reent,fault,init,mix,idle,ops,stream,dgram,conn,acc,opsf,connf,dgramf"
FILES = ["src/reactor.rs", "src/driver.rs", "src/lib.rs", "src/reactor/unix.rs", "src/os/unix.rs"]
J = "/tmp/auto-tests-%d.json" % os.getpid()
SWAPS = [(r"\bREAD\b", "WRITE"), (r"\bWRITE\b", "READ"), (r"\.readable\b", ".writable"), (r"\.writable\b", ".readable"),
  (r"poll_readable\(cx", "poll_writable(cx"), (r"poll_writable\(cx", "poll_readable(cx"),
  (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r">=", ">"), (r" > ", " >= "), (r"==", "!="), (r"!=", "=="),
  (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_err\(\)", ".is_ok()"),
  (r"\.is_ok\(\)", ".is_err()"), (r"\.is_empty\(\)", ".is_empty() == false"), (r"!(?=[a-z(])(?!\()", ""), (r"fetch_add", "fetch_sub"), (r"fetch_sub", "fetch_add"),
  (r"from_nanos\(1\)", "from_nanos(0)"), (r"from_secs\(0\)", "from_millis(50)"), (r"from_secs\(0\)", "from_micros(30)"), (r"from_micros\(500\)", "from_secs(500)"), (r"from_micros\(500\)", "from_micros(0)"),
  (r"\b10\b", "100000"), (r"\b10\b", "0"), (r"10_000", "10_000_000"), (r"\+= 1", "+= 0"), (r"\+= 1", "+= 7"), (r"= 0;", "= 1;"), (r"= 0u64;", "= 11u64;"),
  (r"\.min\(", ".max("), (r"Duration::MAX", "Duration::from_secs(1)"), (r"try_lock\(\)", "lock()"), (r"\.take\(\)", ".clone()"), (r"wrapping_add\(1\)", "wrapping_add(0)"), (r"wrapping_add\(1\)", "wrapping_add(2)"),
  (r"WouldBlock", "Interrupted"), (r"Interrupted", "WouldBlock"), (r"INPROGRESS", "REFUSED"), (r"AGAIN\)", "CONNREFUSED)"), (r"NONBLOCK", "empty()"), (r"Async::new\(", "Async::new_nonblocking("), (r"Async::new_nonblocking\(", "Async::new("),
  (r"\?;", ".ok();"), (r"Some\(waker\)", "None"), (r"Poll::Pending", "Poll::Ready(Ok(()))"), (r"saturating_duration_since\(now\)", "saturating_duration_since(now) * 2"),
  (r"saturating_duration_since\(now\)", "saturating_duration_since(now) / 2"), (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"\.remove\(", ".get("), (r"get_ref\(\)", "get_ref()"),
  (r"None => Ok\(stream\)", "None => Ok(stream), Some(_) if true => Err(io::ErrorKind::Other.into())"),
  (r"index", "ticks.map(|t| t.0)"), (r"keys\(\)\s*$", "keys().skip(1)"), (r"\.next\(\)", ".last()"), (r"notify\(\)", "ticker()")]
def muts(f):
    src = open("/repo/" + f).read().split("\n")
    out = []; skip = False
    for i, l in enumerate(src):
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("#!") or s.startswith("use ") or "tracing" in s or "span" in s or "_enter" in s or re.match(r"(pub |unsafe |async )*(impl|fn|type|where|mod)\b", s): continue
        new = set()
        if s.endswith(";") and not s.startswith("let ") and not s.startswith("pub ") and not s.startswith("static ") and not s.startswith("const ") and s not in ("};", "});", ")?;", ");"):
            if s.count("(") == s.count(")"): new.add("")
        if s.startswith("return ") and s.endswith(";"): new.add("")
        m = re.match(r"^(\s*)(\}? ?(?:else )?if |while )(?!let )(.*) \{$", l)
        if m:
            for c in ("!(%s)", "true || (%s)", "false && (%s)"): new.add(m.group(1) + m.group(2) + c % m.group(3) + " {")
        for a, b in SWAPS:
            if re.search(a, l):
                n = re.sub(a, b, l, count=1)
                if n != l: new.add(n)
        for n in sorted(new): out.append((f, i, l, n))
    return out
def sh(c, t=900):
    try:
        x = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return x.returncode, x.stdout
    except subprocess.TimeoutExpired as e: return 124, (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else ""
def sim(n, base, t):
    rc, o = sh("SIM_STOP=1 timeout -k 1 %d /verif/sim/target/debug/simw batch %s %d %d" % (t, FAMS, n, base), t + 30)
    v = [l.strip()[:230] for l in o.splitlines() if re.match(r"^ *\d+ x ", l)]
    if rc == 124 and not v: v = ["timeout"]
    if rc not in (0, 124) and not v: v = ["exit %d %s" % (rc, o[-200:])]
    return v
def one(f, i, old, new):
    p = "/repo/" + f
    t = open(p).read().split("\n"); assert t[i] == old
    t[i] = new; open(p, "w").write("\n".join(t))
    try:
        rc, o = sh("/verif/sim/build.sh 2>&1", 300)
        if rc: return "nobuild", []
        for n, base, tm in ((40, 77, 60), (700, 1234, 120)):
            v = sim(n, base, tm)
            if v: return "caught%d" % n, v
        rc, o = sh("bash /opt/vp/build.sh", 300)
        if rc: return "nobuild2", []
        sh("rm -f " + J); sh("timeout 300 bash /opt/vp/test.sh " + J, 330)
        try:
            j = json.load(open(J)); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            if [x for x in st if x not in j["passed"]]: return "tests", []
        except Exception: return "tests", []
        v = sim(1500, 98765, 200)
        return ("late", v) if v else ("SURVIVED", [])
    finally: sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    out, part, parts = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    ms = [m for f in (sys.argv[4:] or FILES) for m in muts(f)]
    random.Random(1).shuffle(ms)
    done = set()
    if os.path.exists(out): done = {tuple(json.loads(l)["m"]) for l in open(out)}
    if part < 0: print(len(ms)); [print(*m, sep=" | ") for m in ms]; sys.exit()
    for k, m in enumerate(ms):
        if k % parts != part or m in done: continue
        r, v = one(*m)
        with open(out, "a") as h: h.write(json.dumps({"m": m, "r": r, "v": v}) + "\n")
