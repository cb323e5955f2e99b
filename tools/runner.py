"""Runs the deductive verifier on the extracted units and the bounded search, decides, and writes the evidence."""
import json, os, re, resource, shutil, signal, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import extract as ex

CDIR = os.path.join(VERIF, "contracts")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")
VH = os.path.join(TARGET, "debug", "vh")
VHD = os.path.join(TARGET, "dbg", "debug", "vh")      # the same, with the crate's feature debug-images
def vh(prop): return VHD if prop == "C18" else VH
def scratch(prop):
    """debug pictures are written under TMPDIR"""
    if prop != "C18": return None, None
    d = os.path.join(BUILD, "tmp.%s.%d" % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d, dict(os.environ, TMPDIR=d, VH_OFF=VH)
MEM = 6 << 30

def sh(cmd, timeout, **kw):
    """run, in its own process group, killed as a whole at the timeout; (rc or None, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return None, o.decode("utf-8", "replace"), e.decode("utf-8", "replace")

# ------------------------------------------------------------------ the concrete side
def build_harness(prop=None):
    for target, extra in [(TARGET, [])] + ([(os.path.join(TARGET, "dbg"), ["--features", "debug-images"])] if prop == "C18" else []):
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target)
        env.pop("RUSTFLAGS", None)
        rc, o, e = sh(["cargo", "build", "--offline", "--quiet", "--manifest-path", os.path.join(HARNESS, "Cargo.toml")] + extra, 800, env=env)
        if rc: return False, e[-3000:]
    return True, ""

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def one(prop, seed, idx, timeout=90):
    d, env = scratch(prop)
    rc, o, e = sh([vh(prop), "one", prop, str(seed), str(idx)], timeout, preexec_fn=limits, env=env)
    if d: shutil.rmtree(d, ignore_errors=True)
    if rc == 0: return None
    if rc is None: return "no result within %d s" % timeout
    if rc == 1 and o.startswith("FAIL"): return o.split("\n")[0][5:]
    return "the process died (status %s): %s" % (rc, (e.strip().split("\n") or [""])[-1][:300])

def search(prop, seed, secs, replay):
    """bounded search over the public API; dict(cases, fixed, seconds, fail=None|str)"""
    slots = os.path.join(BUILD, "slots.%s.%d" % (prop, os.getpid()))
    t0 = time.time()
    d, env = scratch(prop)
    rc, o, e = sh([vh(prop), "run", prop, str(seed), str(secs), replay, slots], secs + 300, preexec_fn=limits, env=env)
    if d: shutil.rmtree(d, ignore_errors=True)
    res = dict(cases=0, fixed=0, distinct=0, seconds=round(time.time() - t0, 1), fail=None, seed=seed)
    m = re.search(r"DONE cases=(\d+) fixed=(\d+) distinct=(\d+)", o)
    if rc == 0 and m:
        res.update(cases=int(m.group(1)), fixed=int(m.group(2)), distinct=int(m.group(3)))
    elif rc == 1 and "FAIL" in o:
        res["fail"] = re.search(r"FAIL (.*)", o).group(1)
    else:
        # abort, stack overflow, out of memory: find the case among those that were in flight
        try: d = open(slots, "rb").read()
        except OSError: d = b""
        for i in sorted(set(struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8]))):
            why = one(prop, seed, i)
            if why:
                sh([vh(prop), "writereplay", prop, str(seed), str(i), replay, why], 120, preexec_fn=limits)
                res["fail"] = "index=%d %s" % (i, why)
                break
        else: res["error"] = "search ended with status %s: %s" % (rc, (o + e)[-400:])
    try: os.unlink(slots)
    except OSError: pass
    return res

# ------------------------------------------------------------------ the deductive side
def names():
    f = os.path.join(CDIR, "names.json")
    return json.load(open(f)) if os.path.exists(f) else {}

def verus(path, timeout, extra=()):
    """(summary json or None, [diagnostics], raw stderr)"""
    cmd = ["verus", os.path.basename(path), "--crate-type", "bin", "--output-json", "--time-expanded", "--error-format=json",
           "--multiple-errors", "8", "--num-threads", "6", "--triggers-mode", "silent"] + list(extra)
    rc, o, e = sh(cmd, timeout, cwd=os.path.dirname(path))
    diags = []
    for l in e.split("\n"):
        if l.startswith("{"):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: j = json.loads(o)
    except ValueError: j = None
    return rc, j, diags, e

def no_compute(t):
    """evaluations inside proofs are checked by the main run; the canary runs assume them"""
    out, i = [], 0
    for m in re.finditer(r"\bassert\(", t):
        if m.start() < i: continue
        k, depth = m.end(), 1
        while depth:
            depth += {"(": 1, ")": -1}.get(t[k], 0)
            k += 1
        if re.match(r"\s*by\s*\(compute_only\)", t[k:k + 40]):
            out += [t[i:m.start()], "assume(", t[m.end():k], re.sub(r"^\s*by\s*\(compute_only\)", "", t[k:k + 40])]
            i = k + 40 if k + 40 <= len(t) else len(t)
    return "".join(out) + t[i:]

def canaries(txt, want, d, name, timeout):
    """`false` planted at each function entry and loop head, one at a time; the verifier has to refuse each"""
    t0, refused, missing = time.time(), [0], []
    lines = no_compute(txt).split("\n")
    at = [(i, m.group(1)) for i, l in enumerate(lines) for m in [re.search(r"/\*canary (\S+)\*/", l)] if m]
    def go(k):
        i, c = at[k]
        left = timeout - (time.time() - t0)
        if left < 2: return
        l = [("" if j in drop and j != i else x) for j, x in enumerate(lines)]
        f = os.path.join(d, "%s_canary%d.rs" % (name, k))
        open(f, "w").write("\n".join(l))
        fn = c.split("@")[0].split("::")[-1]
        rc, j, diags, raw = verus(f, left, ["--rlimit", "4", "--verify-root", "--verify-function", "*" + fn + "*"])
        vr = (j or {}).get("verification-results", {})
        if rc is None or not vr: return
        bad = [x for x in diags if x["level"] == "error" and any(s["line_start"] <= i + 1 <= s["line_end"] for s in x["spans"])]
        soft = [x for x in diags if x["level"] == "error" and re.search(r"[Rr]esource limit|rlimit", x["message"])]
        if bad or soft: refused[0] += 1
        elif vr.get("verified", 0) and not vr.get("errors", 0): missing.append(c)
    drop = set(i for i, c in at)
    with ThreadPoolExecutor(3) as pool: list(pool.map(go, range(len(at))))
    r = dict(planted=len(want), refused=refused[0], missing=missing)
    if refused[0] + len(missing) < len(want): r["note"] = "%d not answered within %d s" % (len(want) - refused[0] - len(missing), timeout)
    return r

def code_related(txt, consts):
    """the lemmas that speak about tables copied from the code, and the file the table is from"""
    lines = txt.split("\n")
    own, text = owner_map(lines), {}
    for i, l in enumerate(lines):
        n = own[i + 1]
        if n: text.setdefault(n, []).append(l)
    text = {n: "\n".join(x) for n, x in text.items()}
    word = lambda ns: re.compile(r"\b(?:%s)\b" % "|".join(map(re.escape, ns)))
    out = {}
    for c, rel in consts:
        bad = set([c])
        while True:
            w = word(bad)
            m = set(n for n, x in text.items() if n not in bad and "lemma" not in n and "(" not in n and w.search(x))
            if not m: break
            bad |= m
        for n, x in text.items():
            if w.search(x): out[n] = rel
    return out

def judge(r, txt, rep, f, timeout, rlimit, extra=()):
    """one run of the verifier on an extracted unit; fills r"""
    r["hard"] = False
    rc, j, diags, raw = verus(f, timeout, ["--rlimit", str(rlimit)] + list(extra))
    lines = txt.split("\n")
    if rc is None: r["why"] = "verifier timeout after %d s" % timeout; return
    if j is None or "verification-results" not in j:
        r["why"] = "verifier gave no result: " + raw[-500:]; return
    vr = j["verification-results"]
    hard = [x for x in diags if x["level"] == "error" and (x.get("code") or vr.get("encountered-vir-error") or not vr.get("verified", 0) + vr.get("errors", 0))]
    if hard:
        r["hard"] = True
        # a function that got only `&` of what it must leave alone, and writes to it: the frame condition fails
        owner = owner_map(lines)
        for x in hard:
            code = (x.get("code") or {}).get("code")
            for s in x["spans"]:
                fn = owner[min(s["line_start"], len(owner) - 1)] if s["is_primary"] else None
                if fn and fn.startswith("debug_") and code in ("E0594", "E0596", "E0384"):
                    r["failures"].append(dict(function=fn, obligation="frame: writes to what it may only read", clause=" ".join(q["text"].strip() for q in s["text"][:3])[:200], rendered=(x.get("rendered") or "")[:3000]))
        # an evaluation inside a proof gave false: that obligation is refuted (if it speaks about the code; the verifier stops there)
        refuted = [x for x in hard if "expression simplifies to false" in x["message"]]
        if refuted and not r["failures"]:
            about_code = code_related(txt, rep["consts"])
            for x in refuted:
                fn = next((owner[min(s["line_start"], len(owner) - 1)] for s in x["spans"] if s["is_primary"]), None)
                if fn and ("(" in fn or fn in about_code):
                    r["failures"].append(dict(function=fn if "(" in fn else "%s (%s)" % (fn, about_code[fn]), obligation="evaluation gave false", clause=" ".join(q["text"].strip() for s in x["spans"] if s["is_primary"] for q in s["text"][:3])[:200], rendered=(x.get("rendered") or "")[:3000]))
            if r["failures"]: r["obligations"] = len(r["failures"])
        if r["failures"]: r["status"] = "failed"
        r["why"] = "not expressible to the verifier: " + "; ".join(x["message"] for x in hard[:3])[:600]
        return
    smt = j.get("times-ms", {}).get("smt", {})
    fb = [q for m in smt.get("smt-run-module-times", []) for q in m.get("function-breakdown", [])]
    r["solver_s"] = round(sum(q.get("time-micros", 0) for q in fb) / 1e6, 2)
    r["obligations"] = vr["verified"] + vr["errors"]
    r["discharged"] = vr["verified"]
    if r["obligations"] == 0: r["why"] = "no obligations"; return
    soft, lost = [], []
    owner = owner_map(lines)
    about_code = code_related(txt, rep["consts"])
    for x in diags:
        if x["level"] != "error" or x["message"].startswith("aborting"): continue
        sp = x["spans"]
        fn = None
        for s in sp:
            o = owner[min(s["line_end"], len(owner) - 1)] if "end of the function" in (s.get("label") or "") or "at this" in (s.get("label") or "") else None
            if o: fn = o
        if fn is None:
            for s in sp:
                if s["is_primary"]: fn = owner[min(s["line_start"], len(owner) - 1)]
        clause = ""
        for s in sp:
            if s["is_primary"]: clause = " ".join(q["text"].strip() for q in s["text"][:3])[:200]
        rec = dict(function=fn or "?", obligation=x["message"], clause=clause)
        if fn and "(" not in fn and not fn.startswith("theorem") and fn not in about_code:
            lost.append(fn)
            continue
        if fn in about_code and "(" not in fn: rec["function"] = "%s (%s)" % (fn, about_code[fn])
        if re.search(r"[Rr]esource limit|rlimit|timed out|canceled|incomplete", x["message"]): soft.append(rec)
        else: r["failures"].append(dict(rec, rendered=(x.get("rendered") or "")[:3000]))
    if r["failures"]:
        r["status"] = "failed"
    elif vr["errors"] or not vr["success"]:
        r["why"] = ("resource limit: " + ", ".join(sorted(set(s["function"] for s in soft))) if soft else "") + (" lemma of mathematics not reproved: " + ", ".join(sorted(set(lost))) if lost else "")
    else:
        r["status"] = "verified"

def run_unit(name, canary, timeout, rlimit, canary_timeout=240):
    """verify one extracted unit.  status: verified | failed | inconclusive"""
    r = dict(unit=name, status="inconclusive", why="", failures=[], obligations=0, discharged=0, solver_s=0.0, functions=[],
             trusted=[], dropped=[], files=[], canary=None, relied=[], hard=False)
    t0 = time.time()
    try:
        txt, rep, _ = ex.extract(REPO, CDIR, name, names())
    except (ex.ExtractError, IndexError) as err:
        r["why"] = "extraction: %s" % err
        return r
    r.update(functions=rep["functions"], trusted=rep["trusted"], dropped=rep["dropped"], files=rep["files"], relied=rep["relied"])
    d = os.path.join(BUILD, "%s.%d" % (name, os.getpid()))
    os.makedirs(d, exist_ok=True)
    try:
        f = os.path.join(d, name + ".rs")
        open(f, "w").write(txt)
        th = None
        cres = {}
        if canary:
            def go():
                ctxt, crep, _ = ex.extract(REPO, CDIR, name, names(), canary=True)
                cres["r"] = canaries(ctxt, crep["canaries"], d, name, canary_timeout)
            th = threading.Thread(target=go); th.start()
        judge(r, txt, rep, f, timeout, rlimit)
        # a proof the solver loses in one search order may be found in another: any accepted proof is a proof
        for k in (1, 2):
            if r["status"] == "verified" or r["hard"] or time.time() - t0 > timeout: break
            r2 = dict(r, status="inconclusive", why="", failures=[])
            judge(r2, txt, rep, f, max(30, timeout - (time.time() - t0)), rlimit, ["--smt-option", "smt.random_seed=%d" % k])
            s, o = r["solver_s"] + r2["solver_s"], r2["obligations"]
            if not o: break
            if r2["status"] == "verified": r.update(r2)
            else:
                keep = set(x["function"] for x in r2["failures"])
                both = [x for x in r["failures"] if x["function"] in keep]
                if len(both) < len(r["failures"]): r["failures"] = both
                if not r["failures"]: r["status"], r["why"] = "inconclusive", r2["why"] or r["why"] or "the solver lost a proof"
            r["solver_s"] = round(s, 2)
        # a loop that was not there when the contracts were written has no invariant: what is lost there is no verdict
        new = [x for x in r["failures"] if x["function"].split(" ")[0] in rep.get("new_loops", [])]
        if new and r["status"] == "failed":
            r["failures"] = [x for x in r["failures"] if x not in new]
            if not r["failures"]: r["status"], r["why"] = "inconclusive", "a new loop has no invariant: " + ", ".join(sorted(set(x["function"] for x in new)))
        if th: th.join()
        if canary and r["status"] == "verified":
            r["canary"] = cres["r"]
            if cres["r"]["missing"]:
                r["status"], r["why"] = "inconclusive", "vacuous: `false` was accepted at " + ", ".join(cres["r"]["missing"])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r["wall_s"] = round(time.time() - t0, 1)
    return r

def owner_map(lines):
    """line number (1-based) -> name of the function it belongs to"""
    out, cur, ty = [None], None, None
    for l in lines:
        m = re.match(r"// ---- (\S+) \((\S+)\)", l)
        if m: cur = "%s (%s)" % (m.group(1), m.group(2))
        elif re.match(r"\s*(pub )?(open |closed |broadcast |uninterp )*(proof|spec) fn", l) or re.match(r"\s*(pub )?(open |closed )?(const )?(exec )?fn \w+", l):
            m2 = re.search(r"fn (\w+)", l)
            if not (cur and cur.split(" ")[0].split("::")[-1] == m2.group(1)): cur = m2.group(1)
        out.append(cur)
    return out
