"""Developer aid: prints the value graph of functions. python3 ev.py [-c crate] fn..."""
import sys, time, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "an"))
from facts import *; import engine; from engine import *
args = sys.argv[1:]
cs = ["pact_models"]
if args[0] == "-c": cs = args[1].split(","); args = args[2:]
C = [Crate("/verif/.work/facts/%s.jsonl" % c) for c in cs]
opq = set()
if args[0] == "-o": opq = set(args[1].split(",")); args = args[2:]
for n in args:
    if n.startswith("?"):
        for c in C:
            for f in sorted(c.fns):
                if n[1:] in f: print(f)
        continue
    t0 = time.time()
    I = Interp(C, opaque=lambda x: any(o in x for o in opq))
    v, m = I.run(n)
    print("==", n, "%.2fs" % (time.time() - t0), "steps", 400000 - I.budget)
    print(show(v, 14) if v else v)
    for k, x in (m or {}).items():
        if isinstance(k, tuple) and k[0] in ("param",): print("  mem", k, show(x, 14))
    print("unknown", I.unknown)
