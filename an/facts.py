"""Loading of the facts files written by the rustc driver."""
import json

class Crate:
    def __init__(self, path, strip=None):
        """strip: the prefix of the names of another crate, taken off so that both crates call its items the same."""
        self.fns, self.tys, self.adts = {}, {}, {}
        self.name, self.complete = None, False
        self.dups = []
        with open(path) as f:
            for line in f:
                r = json.loads(line.replace(strip, "") if strip else line)
                k = r["rec"]
                if k == "fn":
                    if r["id"] in self.fns:
                        self.dups.append(r["id"])
                        n = 2
                        while "%s#%d" % (r["id"], n) in self.fns: n += 1
                        r["id"] = "%s#%d" % (r["id"], n)
                    self.fns[r["id"]] = r
                elif k == "ty": self.tys[r["id"]] = r["v"]
                elif k == "adt": self.adts[r["v"]["path"]] = r["v"]
                elif k == "end":
                    self.name, self.complete = r["crate"], True
        if not self.complete: raise SystemExit("facts file %s is truncated" % path)

    def ty(self, i): return self.tys[i]["s"]

def callee_name(t):
    """Resolved path of a call terminator's callee, or None for a call through a value."""
    f = t["f"].get("k", {}).get("fn") if "k" in t["f"] else None
    if not f: return None
    return f.get("r") or f["p"]
