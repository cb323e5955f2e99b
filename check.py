#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   |   check.py --replay FILE   |   check.py --setup"""
import json, os, shutil, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from runner import *
from props import PROPS
import floatcheck

def known():
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", l)
            if m: out.append(m.groups())
    return out

def replay(path):
    j = json.load(open(path))
    if "index" in j:
        ok, msg = build_harness(j["property"])
        if not ok: print(msg); return 2
        why = one(j["property"], j["seed"], j["index"])
        print("input:", j.get("input")); print("failure:", why or "none: the case passes on the current tree")
        return 1 if why else 0
    for f in j["failed_obligations"]: print(f["function"], ":", f["obligation"], ":", f["clause"])
    bad = 0
    for u in j["units"]:
        r = run_unit(u, False, 600, 60)
        print(u, r["status"], r["why"]); bad |= r["status"] == "failed"
        for f in r["failures"]: print(f["rendered"])
    return 1 if bad else 0

def main():
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        ok, msg = build_harness("C18")
        print("harness built" if ok else msg)
        return 0 if ok else 1
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    t0 = time.time()
    for d in (BUILD, REPLAYS, os.path.join(VERIF, "evidence")): os.makedirs(d, exist_ok=True)
    quick = tier != "thorough"
    secs = cfg.get("quick_s", 12) if quick else cfg.get("thorough_s", 240)
    # ---- deductive side in the background
    units, results = cfg["units"], {}
    def prove(u):
        left = (600 if quick else 6000) - (time.time() - t0)      # a check answers within 900 s whatever the solver does
        try: results[u] = run_unit(u, True, max(20, min(left, 500 if quick else 1500)), 60 if quick else 120, max(20, min(left, 240 if quick else 1200)))
        except Exception as e: results[u] = dict(unit=u, status="inconclusive", why="runner: %r" % e, failures=[], obligations=0, discharged=0, solver_s=0, functions=[], trusted=[], dropped=[], files=[], canary=None)
    def prove_all():
        with ThreadPoolExecutor(3) as pool: list(pool.map(prove, units))
    th = threading.Thread(target=prove_all); th.start()
    # the facts on f64 the contracts use, proved about IEEE 754 binary64 (of mathematics, not of /repo: reported, never an alarm)
    fl = {}
    def floats():
        d = os.path.join(BUILD, "float.%s.%d" % (prop, os.getpid()))
        try: fl["r"] = floatcheck.check(d)
        except Exception as e: fl["r"] = (False, [], repr(e))
        shutil.rmtree(d, ignore_errors=True)
    fth = threading.Thread(target=floats)
    if cfg.get("floats"): fth.start()
    ok, msg = build_harness(prop)
    if not ok:
        th.join()
        print("the harness does not build against /repo:\n" + msg)
        return 2
    rp = os.path.join(REPLAYS, "%s.%d.json" % (prop, os.getpid()))
    runs = [search(prop, seed, secs, rp)]
    th.join()
    if cfg.get("floats"): fth.join()
    own = cfg.get("own")
    def mine(f):
        # a clause that states a property by name is about that property
        tags = re.findall(r"/\*(C\d\d)\*/", f["clause"])
        if tags: return prop in tags
        # a failed contract of a function this property only relies on is that property's business: here it leaves this one undecided
        m = re.search(r"\((\S+)\)$", f["function"])
        if own is None or m is None or m.group(1) in own or "%s::%s" % (m.group(1), f["function"].split(" ")[0]) in own: return True
        if cfg.get("own_clause") and re.search(cfg["own_clause"], f["clause"]): return True
        return bool(cfg.get("own_kind")) and re.search(cfg["own_kind"], f["obligation"]) is not None
    main_fail = [dict(f, unit=u) for u in units for f in results[u]["failures"] if mine(f)]
    if (main_fail or any(r["status"] != "verified" for r in results.values())) and not runs[-1]["fail"]:
        # an obligation failed, or the verifier could not decide: look harder for an input
        runs.append(search(prop, seed + 7919, 60 if quick else 300, rp))
    fail = next((r["fail"] for r in runs if r["fail"]), None)
    errs = [r["error"] for r in runs if r.get("error")]
    known_hits = []
    if fail:
        for (p, pat, text) in known():
            if p == prop and re.search(pat, fail): known_hits.append(text); fail = None; break
    # ---- verdict
    verdict, line = 0, None
    if fail:
        verdict, line = 1, "VIOLATION property=%s replay=%s" % (prop, rp)
    elif main_fail:
        json.dump(dict(property=prop, units=sorted(set(f["unit"] for f in main_fail)),
                       failed_obligations=[dict(function=f["function"], obligation=f["obligation"], clause=f["clause"]) for f in main_fail],
                       verifier_output=[f["rendered"] for f in main_fail], replay="/verif/check.py --replay <this file>"), open(rp, "w"), indent=1)
        verdict, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
    proved = all(results[u]["status"] == "verified" for u in units) and bool(units)
    rs = [results[u] for u in units]
    samples = []
    if not fail:
        for i in (0, 1, max(1, runs[0]["cases"] - 1)):
            rc, o, e = sh([vh(prop), "describe", prop, str(seed), str(i)], 60)
            if rc == 0: samples.append(o.strip()[:400])
    search_ev = dict(evaluations=sum(r["cases"] for r in runs), distinct_nontrivial=sum(r["distinct"] for r in runs),
                     rule=cfg["rule"] + " A case is a function of (property, seed, index); the first %d are a fixed list. Distinct cases are counted by a fingerprint of the generated values (up to 4 million per thread); every case calls the code under test and compares its answer with an independent reference, so none is trivial." % runs[0]["fixed"],
                     samples=samples or [fail or "none"])
    ded = dict(obligations=sum(r["obligations"] for r in rs), discharged=sum(r["discharged"] for r in rs),
               checker_cmd="verus <unit>.rs --rlimit %d (z3 4.12 bundled with Verus), units extracted from /repo by tools/extract.py: %s" % (60 if quick else 120, " ".join(units)),
               trusted_base=sorted(set(["Verus 0.2026.09.13 and its Z3; vstd's specifications of core/alloc; rustc", "tools/extract.py (mechanical extraction)"] + [t for r in rs for t in r["trusted"]] +
                                  ["contract of %s, discharged in unit %s, which this check does not run" % (f, u) for r in rs for u, f in r.get("relied", []) if u not in units])),
               functions_under_contract=sorted(set(f for r in rs for f in r["functions"])),
               solver_seconds=round(sum(r["solver_s"] for r in rs), 2),
               extraction_drops=sorted(set(d for r in rs for d in r["dropped"])),
               units=[dict((k, r.get(k)) for k in ("unit", "status", "why", "obligations", "discharged", "solver_s", "wall_s", "canary")) for r in rs],
               bounded_search=dict(search_ev, exhaustive=False, note="labelled bounded: looks for a failing input; never counted as proof"))
    if fl:
        okf, fs, msg = fl["r"]
        reproved = lambda t: any(re.match(r"pub axiom fn %s\b" % n, t) for n in fs)
        ded["float_facts"] = dict(facts=fs, checker_cmd="coqc -q Bounds.v; coqc -q Stated.v (Coq 8.16.1 with Flocq; Stated.v written by tools/floatcheck.py from the axioms in contracts/)",
                                  proved=okf, message=msg)
        if okf: ded["trusted_base"] = [t for t in ded["trusted_base"] if not reproved(t)] + ["float facts %s: proved about IEEE 754 binary64 by coqc in this run; taken over into Verus by tools/floatcheck.py's translation; Coq's classical real numbers" % ", ".join(fs)]
        print("float facts: %d, %s" % (len(fs), "proved by coqc" if okf else "not reproved: " + msg))
    if proved:
        level, cov = "proof", ded
    else:
        level, cov = "exploration", dict(search_ev, deductive=ded)
    ev = dict(property=prop, tier="quick" if quick else "thorough", seed=seed, level=level, coverage=cov,
              assumptions=cfg["assumptions"] + errs, wall_s=round(time.time() - t0, 1), violations=1 if verdict else 0)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for r in rs: print("unit %-10s %s: %d/%d obligations, %.1f s solver %s" % (r["unit"], r["status"], r["discharged"], r["obligations"], r["solver_s"], r["why"]))
    for f in main_fail: print("failed obligation: %s: %s: %s" % (f["function"], f["obligation"], f["clause"]))
    for r in runs: print("bounded search: %d cases (%d fixed) in %.1f s%s" % (r["cases"], r["fixed"], r["seconds"], ": " + r["fail"] if r["fail"] else ""))
    for e in errs: print("search error:", e)
    if not units: print("no unit: bounded only")
    elif not proved and not verdict: print("not proved on this tree; the bounded search decides, labelled bounded")
    for t in known_hits: print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if line: print(line)
    elif os.path.exists(rp): os.unlink(rp)
    return verdict

if __name__ == "__main__":
    sys.exit(main())
