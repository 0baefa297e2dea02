#!/usr/bin/env python3
"""Runs one check: python3 check.py <property> [--thorough].  Developer mode: check.py all|<ids> --cached (facts of the last run)."""
import os, sys, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "an"))
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)
sys.dont_write_bytecode = True

def main():
    import report, extract
    import props
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    if "--cached" in sys.argv: report.CACHED = True
    if ids == ["all"]: ids = sorted(report.REG)
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    rc = 0
    for i in ids:
        if i not in report.REG: print("unknown property " + i); return 2
        try: rc |= report.run(i, tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "0") or 0))
        except extract.ExtractError as e:
            print("error: %s" % e); return 2
    if os.environ.get("VERIF_UNKNOWN"):
        import engine
        with open(os.environ["VERIF_UNKNOWN"], "w") as f: f.write("".join(x + "\n" for x in sorted(engine.UNKNOWN)))
    return rc

out = []
t = threading.Thread(target=lambda: out.append(main()))
t.start(); t.join()
sys.exit(out[0] if out else 2)
