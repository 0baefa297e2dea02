"""Regenerates the analysed facts from /repo's current source.

A scratch cargo workspace (git-ignored, under /verif/.work) is filled with verbatim copies of the analysed crates of /repo;
only their manifests lose the dev-dependencies, because the test-only crates are not installed here.  Dependencies that
are not installed are replaced by the signature-only crates of /verif/stubs.  The crates are then type-checked by
`cargo +nightly check` with the fact driver as compiler wrapper: the driver writes the MIR of every function.
"""
import os, re, shutil, subprocess, sys, fcntl, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
WS = os.path.join(WORK, "ws")
CRATES = ("pact_models", "pact_matching")
STUBS = ("onig", "fs2", "reqwest", "difference", "infer", "md5", "snailquote", "tree_magic_mini", "multer", "pact-plugin-driver")

class ExtractError(Exception): pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sysroot():
    r = sh(["rustc", "+nightly", "--print", "sysroot"])
    if r.returncode: raise ExtractError("no nightly toolchain: " + r.stdout)
    return r.stdout.strip()

def strip_dev(toml):
    """Manifest without the dev-dependency and bench/test tables."""
    out, skip = [], False
    for line in toml.splitlines():
        m = re.match(r"\s*\[+\s*([^\]]+?)\s*\]+", line)
        if m:
            n = m.group(1)
            skip = n == "dev-dependencies" or n.startswith("dev-dependencies.") or n.endswith(".dev-dependencies") or n in ("bench", "test") or ".dev-dependencies." in n
        if not skip: out.append(line)
    return "\n".join(out) + "\n"

def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data: return False
    except OSError: pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f: f.write(data)
    return True

def sync(crate):
    src = os.path.join(REPO, "rust", crate)
    dst = os.path.join(WS, crate)
    want = set()
    for sub in ("src",):
        for d, _, fs in os.walk(os.path.join(src, sub)):
            for f in fs:
                p = os.path.join(d, f)
                rel = os.path.relpath(p, src)
                want.add(rel)
                with open(p, "rb") as fh: write_if_changed(os.path.join(dst, rel), fh.read())
    for f in ("README.md", "build.rs"):
        if os.path.exists(os.path.join(src, f)):
            want.add(f)
            with open(os.path.join(src, f), "rb") as fh: write_if_changed(os.path.join(dst, f), fh.read())
    tz, ln = os.path.join(src, "tzdata"), os.path.join(dst, "tzdata")
    if os.path.isdir(tz) and not os.path.islink(ln): os.symlink(tz, ln)
    with open(os.path.join(src, "Cargo.toml")) as fh: write_if_changed(os.path.join(dst, "Cargo.toml"), strip_dev(fh.read()).encode())
    want.add("Cargo.toml")
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want: os.remove(os.path.join(d, f))
    if not want: raise ExtractError("no source for " + crate)

def driver_exe(): return os.path.join(WORK, "driver", "debug", "factdriver")

class DriverBuild(threading.Thread):
    """Builds the fact driver while cargo builds the dependencies; an/wrap.sh waits for it."""
    def __init__(self):
        super().__init__()
        self.exe = driver_exe()
        os.makedirs(os.path.dirname(self.exe), exist_ok=True)
        for x in (".done", ".fail"):
            if os.path.exists(self.exe + x): os.remove(self.exe + x)
        self.out, self.okay = "", False
    def run(self):
        try:
            env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(WORK, "driver"))
            r = sh(["cargo", "+nightly", "build", "--offline", "--manifest-path", os.path.join(VERIF, "driver", "Cargo.toml")], env=env)
            self.out, self.okay = r.stdout, r.returncode == 0 and os.path.exists(self.exe)
        except Exception as e: self.out = str(e)
        open(self.exe + (".done" if self.okay else ".fail"), "w").close()

def facts(crates=("pact_models",), variant="native"):
    """Returns {crate: facts file}; regenerated from the current source on every call (unless this process already did)."""
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = DriverBuild(); drv.start()
        for c in CRATES: sync(c)
        write_if_changed(os.path.join(WS, "Cargo.toml"), ('[workspace]\nmembers = [%s]\nresolver = "2"\n[patch.crates-io]\n%s\npact_models = { path = "pact_models" }\n' % (
            ", ".join('"%s"' % c for c in CRATES), "\n".join('%s = { path = "%s/stubs/%s" }' % (s, VERIF, s) for s in STUBS))).encode())
        lock = os.path.join(WS, "Cargo.lock")
        shutil.copyfile(os.path.join(HERE, "ws.lock"), lock) if os.path.exists(os.path.join(HERE, "ws.lock")) else None
        out = os.path.join(WORK, "facts")
        os.makedirs(out, exist_ok=True)
        tag = "" if variant == "native" else "-" + variant
        res = {}
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=sysroot() + "/lib", FACT_DIR=out, FACT_CRATES=",".join(crates), RUSTC_WORKSPACE_WRAPPER=os.path.join(HERE, "wrap.sh"), FACT_EXE=drv.exe, RUSTFLAGS="-Zmir-opt-level=0 -Awarnings", FACT_TAG=tag)
        env.pop("CARGO_TARGET_DIR", None); env.pop("RUSTC_WRAPPER", None)
        if variant == "wasm": env["FACT_RUSTFLAGS"] = "-A explicit_builtin_cfgs_in_flags --cfg target_family=\"wasm\""
        feats = "datetime,form_urlencoded" if variant == "wasm" else "datetime,xml,form_urlencoded"
        top = crates[-1]
        for c in crates:
            f = os.path.join(out, c + tag + ".jsonl")
            if os.path.exists(f): os.remove(f)
            os.utime(os.path.join(WS, c, "src", "lib.rs"))
            res[c] = f
        cmd = ["cargo", "+nightly", "check", "-p", top, "--lib", "--no-default-features", "--features", feats, "--offline", "--target-dir", os.path.join(WORK, "t-" + variant)]
        r = sh(cmd, env=env, cwd=WS)
        drv.join()
        if not drv.okay: raise ExtractError("the fact driver does not build:\n" + drv.out[-3000:])
        if r.returncode: raise ExtractError("the analysed crates do not type-check:\n" + r.stdout[-4000:])
        for c, f in res.items():
            if not os.path.exists(f): raise ExtractError("no facts for %s:\n%s" % (c, r.stdout[-2000:]))
        return res

if __name__ == "__main__":
    t = time.time()
    if "--setup" in sys.argv:
        print(facts(("pact_models", "pact_matching"))); print(facts(("pact_models",), "wasm"))
    else: print(facts(tuple(sys.argv[1:]) or ("pact_models",)))
    print("%.1fs" % (time.time() - t))
