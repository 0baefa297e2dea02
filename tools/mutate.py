#!/usr/bin/env python3
"""Developer aid: surveys small changes of pact_models in scratch copies under /tmp/mut.  mutate.py gen N SEED > list; mutate.py run list out worker nworkers
Each change that compiles and passes the library tests is given to every check; the outcome is one JSON line."""
import sys, os, re, random, json, subprocess, shutil, time
SRC = "/repo/rust/pact_models/src"
SKIPF = ("verify_json.rs", "http_utils.rs", "file_utils.rs", "test_utils", "build.rs")
def sh(c, **k):
    try: return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=k.pop("timeout", 600), **k)
    except subprocess.TimeoutExpired:
        class R: returncode, stdout = 124, "timeout"
        return R
def code_lines(s):
    """Line numbers outside test modules, comments and log calls."""
    out, ls = [], s.split("\n")
    cut = next((i for i, l in enumerate(ls) if re.match(r"\s*#\[cfg\(test\)\]", l)), len(ls))
    depth = 0
    skip = 0
    for i, l in enumerate(ls[:cut]):
        t = l.strip()
        if not t or t.startswith(("//", "#[", "use ", "pub use", "mod ", "pub mod", "#![")): continue
        if re.match(r"(trace|debug|warn|info|error)!\(", t): skip = t.count("(") - t.count(")"); continue
        if skip > 0: skip += t.count("(") - t.count(")"); continue
        if re.search(r"\b(trace|debug|warn|info|error)!\(", t): continue
        out.append(i)
    return ls, out
def muts(line, rnd):
    r = []
    def sub(pat, rep, n=None):
        for m in re.finditer(pat, line):
            new = line[:m.start()] + (m.expand(rep) if isinstance(rep, str) else rep(m)) + line[m.end():]
            if new != line: r.append(new)
    for a, b in ((" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "),
                 (".is_some()", ".is_none()"), (".is_none()", ".is_some()"), (".is_ok()", ".is_err()"), ("true", "false"), ("false", "true"), ("::V3", "::V4"), ("::V4", "::V3"), ("::V2", "::V3"), (".any(", ".all("), (".all(", ".any("),
                 ("::AND", "::OR"), ("::OR", "::AND"), ("first()", "last()"), ("last()", "first()"), (".max(", ".min("), ("starts_with", "ends_with"), ("starts_with", "contains"), ("splitn(", "rsplitn("), (".to_lowercase()", ".to_uppercase()"), (".to_lowercase()", ""),
                 ("Less", "Greater"), ("Missing", "Empty"), ("Empty", "Null"), (".iter()", ".iter().skip(1)"), (".iter()", ".iter().rev()"), (".iter()", ".iter().take(1)"), (".unwrap_or_default()", ".unwrap()"), ("Some(", "None.or(Some("), ("or_else", "and_then"), (".trim()", ""), ("insert(", "remove("),
                 ("request", "response"), ("response", "request"), ("Request", "Response"), ("Header", "Query"), ("::Type", "::Equality"), ("::HEADER", "::QUERY"), ("::BODY", "::METADATA"), ("key", "name"), ("self.", "other."), ("other.", "self."), ("min", "max"), ("max", "min"), (".push(", ".insert(0, "), ("extend(", "clone_from(&")):
        i = line.find(a)
        while i >= 0:
            if not (a[0].isalpha() and (i and (line[i - 1].isalnum() or line[i - 1] == "_"))): r.append(line[:i] + b + line[i + len(a):])
            i = line.find(a, i + 1)
    sub(r"\bif !", "if "); sub(r"\bif (?!let|!)", "if !"); sub(r"\bif (?!let)([^{]+) \{", lambda m: "if true {"); sub(r"\bif (?!let)([^{]+) \{", lambda m: "if false {")
    sub(r'"([^"{}\\]*)"', lambda m: '"%s_"' % m.group(1)); sub(r'"([^"{}\\]+)"', lambda m: '""')
    sub(r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1)); sub(r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1))
    sub(r"'([^'\\])'", lambda m: "'_'")
    t = line.strip()
    if t.endswith(";") and not t.startswith(("let ", "return", "}", ")")): r.append(re.match(r"\s*", line).group(0) + "{}")
    if "=>" in line:
        a, b = line.split("=>", 1)
        tail = "," if b.rstrip().endswith(",") else ""
        if not b.rstrip().endswith("{"):
            for x in ("None", "Default::default()", "false", "true", "vec![]", "Value::Null", "()"): r.append(a + "=> " + x + tail)
        if " if " in a: r.append(re.sub(r" if .*$", " ", a) + "=>" + b)
        if "|" in a: r.append(re.sub(r"\|[^|=]*$", " ", a) + "=>" + b); 
    m = re.match(r"^(\s*)(\w+): (.+?)(,?)$", line)
    if m and not re.search(r"[&<>]|pub ", m.group(3)):
        for x in ("None", "Default::default()", "vec![]"): r.append("%s%s: %s%s" % (m.group(1), m.group(2), x, m.group(4)))
    for m in re.finditer(r"\(([\w.&*]+), ([\w.&*]+)\)", line): r.append(line[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + line[m.end():])
    for m in re.finditer(r"\.(filter|map|sorted_by|unique|sorted|dedup|rev|skip|take|or|and)\([^()]*\)", line): r.append(line[:m.start()] + line[m.end():])
    return [x for x in dict.fromkeys(r) if x != line]
def gen(n, seed):
    rnd = random.Random(seed)
    c = []
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), SRC)
            if not f.endswith(".rs") or any(x in p for x in SKIPF) or "test" in f: continue
            ls, ix = code_lines(open(os.path.join(SRC, p)).read())
            for i in ix: c += [(p, i, ls[i], m) for m in muts(ls[i], rnd)]
    rnd.shuffle(c)
    seen, out = {}, []
    for p, i, o, m in c:      # at most two changes of a line
        if seen.get((p, i), 0) >= 2: continue
        seen[(p, i)] = seen.get((p, i), 0) + 1
        out.append((p, i, o, m))
        if len(out) == n: break
    for x in out: print(json.dumps(x))
ENV = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s/ws; "
ARGS = "-p pact_models --locked --offline --target wasm32-wasip1 --no-default-features --features datetime,form_urlencoded"
def setup(W):
    if os.path.exists(W + "/ready"): return
    os.makedirs(W, exist_ok=True)
    sh("cp -a /opt/vp/ws %s/ws; cp -a /opt/vp/target %s/target; git -C /verif archive --prefix=verif/ HEAD | tar -x -C %s; cp -a /verif/.work %s/verif/.work; mkdir -p %s/repo/rust; cp -a /repo/rust/pact_models /repo/rust/pact_matching %s/repo/rust/" % ((W,) * 6))
    open(W + "/ready", "w").close()
def tests(W):
    r = sh("bash -c '%s VP_SPLIT=1 timeout 120 cargo test --lib --no-fail-fast %s'" % (ENV % (W, W), ARGS))
    return r, set(re.findall(r"^test (\S+) \.\.\. ok", r.stdout, re.M))
def run(lst, out, k, n):
    W = "/tmp/mut/w%d" % k
    setup(W)
    todo = [json.loads(l) for j, l in enumerate(open(lst)) if j % n == k]
    done = {tuple(json.loads(l)["m"]) for f in os.listdir("/tmp/mut") if f.startswith("out") for l in open("/tmp/mut/" + f)}
    _, base = tests(W)
    print("base", len(base), flush=True)
    env = dict(os.environ, VERIF_REPO=W + "/repo")
    for m in todo:
        if tuple(m) in done: continue
        p, i, o, new = m
        f1, f2 = W + "/ws/pact_models/src/" + p, W + "/repo/rust/pact_models/src/" + p
        s1, s2 = open(f1).read(), open(f2).read()
        res = {"m": m}
        try:
            for f, s in ((f1, s1), (f2, s2)):
                ls = s.split("\n")
                if ls[i] != o: res["r"] = "stale"; break
                ls[i] = new
                open(f, "w").write("\n".join(ls))
            if "r" in res: continue
            r, okt = tests(W)
            if "error: could not compile" in r.stdout or "error[" in r.stdout: res["r"] = "nocompile"
            elif base - okt: res["r"] = "tested"; res["n"] = len(base - okt); res["t"] = sorted(base - okt)[:3]
            else:
                c = sh("timeout 500 python3 check.py all", cwd=W + "/verif", env=env)
                v = sorted(set(re.findall(r"VIOLATION property=(\w+)", c.stdout)))
                bad = re.findall(r"^(P\d+): .*?(\d+) open", c.stdout, re.M)
                res.update(r="caught" if v else "SURVIVED", v=v, rc=c.returncode, open={a: int(b) for a, b in bad if int(b)})
                if c.returncode not in (0, 1) or len(bad) < 10: res["tail"] = c.stdout[-600:]
        finally:
            open(f1, "w").write(s1); open(f2, "w").write(s2)
            with open(out, "a") as fh: fh.write(json.dumps(res) + "\n")
if sys.argv[1] == "gen": gen(int(sys.argv[2]), int(sys.argv[3]))
elif sys.argv[1] == "run": run(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
