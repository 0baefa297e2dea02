"""Developer aid: interprets every function and reports failures, slow ones and unmodelled callees."""
import sys, time, os, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "an"))
from facts import *; import engine, guards; from engine import *
cr = sys.argv[1:] or ["pact_models"]
C = [Crate("/verif/.work/facts/%s.jsonl" % c) for c in cr]
unk = collections.Counter(); bad = []; slow = []
t00 = time.time()
for n in sorted(C[0].fns):
    r = C[0].fns[n]
    if r["kind"] not in ("fn", "method") or "__CALLSITE" in n or "::_::" in n: continue
    t0 = time.time()
    try:
        I = Interp(C, maxdepth=6, budget=60000)
        I.run(n)
        for k, v in I.unknown.items():
            if not k.startswith("cut:"): unk[k] += 1
    except Exception as e: bad.append((n, "%s: %s" % (type(e).__name__, str(e)[:100])))
    dt = time.time() - t0
    if dt > 1: slow.append((dt, n))
print("total %.1fs" % (time.time() - t00), "approx", guards.APPROX)
for b in bad: print("BAD", *b)
for s in sorted(slow, reverse=True)[:40]: print("%.1f %s" % s)
for k, v in unk.most_common(): print(v, k)
