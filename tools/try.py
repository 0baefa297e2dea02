#!/usr/bin/env python3
"""Developer aid: tools/try.py bugs.py [id...] — applies each listed edit to scratch copies and reports whether the check of its property notices.
bugs.py: BUGS = [(id, "P01", [(file under rust/pact_models/src, old, new), ...]), ...]; QUIET = the same, for edits that must not be noticed."""
import sys, os, subprocess, re, threading, queue
src = {}
exec(open(sys.argv[1]).read(), src)
want = set(sys.argv[2:])
jobs = queue.Queue()
for kind in ("BUGS", "QUIET"):
    for b in src.get(kind, []):
        if not want or b[0] in want: jobs.put((kind,) + tuple(b))
N = min(int(os.environ.get("N", "4")), jobs.qsize())
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
lock = threading.Lock()
def work(i):
    W = os.environ.get("TRYDIR", "/tmp/try") + str(i)
    os.makedirs(W, exist_ok=True)
    sh("rsync -a --delete --exclude target --exclude .git /repo/ %s/repo/" % W)
    sh("rsync -a --exclude .git --exclude seeded --exclude evidence /verif/ %s/verif/; mkdir -p %s/verif/evidence" % (W, W))
    while True:
        try: kind, bid, props, eds = jobs.get_nowait()
        except queue.Empty: return
        bad, keep = None, {}
        for f, old, new in eds:
            p = W + "/repo/rust/pact_models/src/" + f.replace("rust/pact_models/src/", "")
            s = open(p).read()
            keep.setdefault(p, s)
            if s.count(old) < 1: bad = "text not found in %s: %s" % (f, old[:60]); break
            if s.count(old) > 1: bad = "text found %d times in %s: %s" % (s.count(old), f, old[:60]); break
            open(p, "w").write(s.replace(old, new))
        out = []
        if not bad:
            for pr in props.split(","):
                try: r = sh("cd %s/verif && timeout 600 python3 check.py %s" % (W, pr), env=dict(os.environ, VERIF_REPO=W + "/repo"), timeout=700)
                except subprocess.TimeoutExpired: out.append(pr + " TIMEOUT"); continue
                t = r.stdout + r.stderr
                if "VIOLATION" in t:
                    l = [x.strip() for x in t.split("\n") if x.startswith("  " + pr)]
                    out.append("%s NOTICED (%d) %s" % (pr, len(l), l[0][:230] if l else ""))
                else:
                    m = re.search(r"%s: .*" % pr, t)
                    out.append("%s %s %s" % (pr, "quiet" if r.returncode == 0 else "ERROR %s" % t[-500:], m.group(0) if m else ""))
        for p, s in keep.items(): open(p, "w").write(s)
        with lock: print("%s %s %s: %s" % ("**" if bad or (kind == "BUGS") != any("NOTICED" in o for o in out) else "  ", kind, bid, bad or " | ".join(out)), flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
