"""The facts about f64 that the contracts assume, as statements about IEEE 754 binary64, checked against the proofs in float/Bounds.v.
Every `axiom fn` of the contract files below (other than f64_total and f64_ops, which only say that operators are functions) is
translated to a Coq statement, and coqc accepts the theorem of the same name as its proof."""
import os, re, subprocess, sys
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
FILES = ["f64_bounds.vc", "prepare.vc"]

def literal(t):
    q, e = Fraction(t), 0
    while q.denominator != 1: q, e = q * 2, e - 1
    return "(of_Z %d (%d))" % (q.numerator, e)

def expr(t):
    t = re.sub(r"\b0x([0-9a-fA-F_]+)", lambda m: str(int(m.group(1).replace("_", ""), 16)), t)
    t = re.sub(r"\b(\d+\.\d+)f64\b", lambda m: literal(m.group(1)), t)
    t = re.sub(r"<f64 as FromSpec<u\d+>>::from_spec\((\w+)\)", r"(from_spec \1)", t)
    t = re.sub(r"(Add|Sub|Mul|Div)Spec(::<f64>)?::(add|sub|mul|div)_spec\((\w+), (\w+)\)", r"(\3 \4 \5)", t)
    t = re.sub(r"f64_to_u32\(rounded\((\w+)\)\)", r"f64_to_u32_rounded \1", t)
    t = re.sub(r"root\((\w+)\)", r"(root \1)", t)
    t = re.sub(r"\b(\w+) as int\b", r"\1", t)
    t = re.sub(r"\babove\(([^,]*), (\w+)\)", r"above \1 \2", t)
    def w(m):
        a = split(m.group(1))
        return "(within %s (%s) (%s))" % (a[0], a[1], a[2])
    t = re.sub(r"\bwithin\(((?:[^()]|\([^()]*(?:\([^()]*\))*[^()]*\))*)\)", w, t)
    t = re.sub(r"\bexact\(([^()]*)\)", r"(exact (\1))", t)
    return t.replace("&&", "/\\").replace("||", "\\/").replace("==>", "->").replace("==", "=")

def split(t):
    out, d = [""], 0
    for c in t:
        if c in "([": d += 1
        if c in ")]": d -= 1
        if c == "," and d == 0: out.append("")
        else: out[-1] += c
    return [x.strip() for x in out if x.strip()]

def statements():
    out, names = ["From Coq Require Import ZArith.", "Require Import Bounds.", "Open Scope Z_scope."], []
    for f in FILES:
        s = open(os.path.join(VERIF, "contracts", f)).read()
        for m in re.finditer(r"pub axiom fn (\w+)\(([^)]*)\)\s*(?:requires\s+(.*?))?\s*ensures\s+(.*?);", s, re.S):
            name, ps, req, ens = m.groups()
            vs, hyp = [], []
            for p in split(ps):
                n, ty = [x.strip() for x in p.split(":")]
                vs.append("(%s : %s)" % (n, "f64" if ty == "f64" else "Z"))
                if ty[0] == "u": hyp.append("0 <= %s <= %d" % (n, 2 ** int(ty[1:]) - 1))
            hyp += [expr(x) for x in split(req or "")]
            if name == "w_cast": out.append("Lemma %s_weak %s : %s. Proof. intros; eapply %s; eauto. Qed." % (name, " ".join(vs), " -> ".join(hyp + ["/\\".join(expr(x) for x in split(ens))]), name))
            else:
                con = [expr(x) for x in split(ens)]
                con = con[0] if len(con) == 1 else " /\\ ".join(con)
                con = re.sub(r"^\s*(.*?) /\\ (above .*?) -> (.*)$", r"\1 -> \2 -> \3", con) if "->" in con else con
                out.append("Check (%s : %s%s)." % (name, ("forall %s, " % " ".join(vs)) if vs else "", " -> ".join(hyp + [con])))
            names.append(name)
        m = re.search(r"pub open spec fn exact\(n: int\) -> bool \{(.*?)\}", s)
        if m: out.append("Lemma exact_is n : exact n <-> (%s). Proof. unfold exact; tauto. Qed." % expr(m.group(1)))
    return "\n".join(out) + "\n", names

def check(d, timeout=120):
    """(proved?, names of the facts, message)"""
    os.makedirs(d, exist_ok=True)
    t, names = statements()
    open(os.path.join(d, "Bounds.v"), "w").write(open(os.path.join(VERIF, "float", "Bounds.v")).read())
    open(os.path.join(d, "Stated.v"), "w").write(t)
    for f in ("Bounds.v", "Stated.v"):
        try: p = subprocess.run(["coqc", "-q", f], cwd=d, capture_output=True, text=True, timeout=timeout)
        except (OSError, subprocess.TimeoutExpired) as e: return False, names, str(e)[:200]
        if p.returncode: return False, names, (p.stdout + p.stderr)[-600:]
    return True, names, ""

if __name__ == "__main__":
    print(statements()[0])
    r = check(sys.argv[1])
    print(r)
    sys.exit(0 if r[0] else 1)
