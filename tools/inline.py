"""Functions that are new since the contracts were written (not in contracts/functions.json) have no contract: their calls are
replaced by their bodies, which is what the call means.  Only where that is evident: no generics, no recursion; `return`/`?` only
where it leaves the caller just the same (`helper(..)?` or a call in tail position)."""
import re
from extract import *

def fns(s):
    """[(function, impl item or None)] outside of tests"""
    out = []
    for it in s.items():
        if any("cfg(test)" in c for c in it["cfg"]): continue
        if it["kind"] == "fn": out.append((it, None))
        elif it["kind"] == "impl": out += [(x, it) for x in s._items(it["body"] + 1, it["end"]) if x["kind"] == "fn"]
    return out

def split_commas(toks, lo, hi):
    out, d, a = [], 0, lo
    i = lo
    while i < hi:
        t = toks[i].s
        if t in OPEN: i = match_close(toks, i)
        elif t == "<" : d += 1
        elif t == ">" : d -= 1
        elif t == ">>": d -= 2
        elif t == "," and d <= 0: out.append((a, i)); a = i + 1
        i += 1
    if a < hi: out.append((a, hi))
    return out

def text(s, lo, hi): return s.text[s.toks[lo].a: s.toks[hi - 1].b] if hi > lo else ""

def candidates(s, known):
    res = []
    for f, im in fns(s):
        t = s.toks
        if f["name"] in known or t[f["body"]].s != "{": continue
        if t[f["kw"] + 2].s != "(": continue
        if im is not None and any(x.s == "for" for x in t[im["kw"]:im["body"]]): continue
        if any("inline" not in c and "allow" not in c and "doc" not in c for c in f["cfg"]): continue
        pc = match_close(t, f["kw"] + 2)
        params, slf, ok = [], None, True
        for lo, hi in split_commas(t, f["kw"] + 3, pc):
            toks = [x.s for x in t[lo:hi]]
            if toks[-1] == "self" and im is not None: slf = toks; continue
            c = next((k for k in range(lo, hi) if t[k].s == ":"), None)
            if c is None: ok = False; break
            ty = text(s, c + 1, hi)
            params.append((text(s, lo, c), ty if "impl" not in ty.split() else None))
        if not ok: continue
        body = t[f["body"] + 1:f["end"]]
        if any(x.k == "id" and x.s == f["name"] and body[n + 1].s == "(" for n, x in enumerate(body[:-1])): continue
        ret = [x.s for x in t[pc + 1:f["body"]]]
        returns = [n for n, x in enumerate(body) if x.s == "return"]
        leaves = bool(returns) or any(x.s == "?" for x in body)
        errs = all(body[n + 1].s in ("Err", "None") for n in returns)
        res.append(dict(name=f["name"], f=f, im=im, params=params, self=slf, ret=ret, leaves=leaves, errs=errs,
                        typ=t[im["body"] - 1].s if im is not None else None, single=len(body) > 0 and not any(x.s in (";", "let", "return", "?", "while", "for", "loop", "|", "match") for x in body)))
    return res

SIMPLE = re.compile(r"[\w\s.&*]+$")

def found_then(s, c, start, pc, args):
    """`if helper(..) { A; leave }` where the helper is `.. return true; .. false`: A; leave in the place of each `return true`"""
    t = s.toks
    if c["self"] or t[start - 1].s != "if" or t[start - 2].s not in (";", "{", "}") or t[pc + 1].s != "{" or c["ret"] != ["->", "bool"]: return None
    e = match_close(t, pc + 1)
    if t[e + 1].s == "else": return None
    blk = t[pc + 2:e]
    last = max([n for n, x in enumerate(blk) if x.s in ("continue", "return")], default=None)
    if last is None or any(x.s == ";" for x in blk[last:-1]) or blk[-1].s != ";" or any(x.s in ("}", "?") for x in blk[last:]): return None
    if any(x.s in ("break", "continue") and blk[n + 1].s == ";" for n, x in enumerate(blk)): return None
    body = text(s, c["f"]["body"] + 1, c["f"]["end"])
    stm, tail = tail_split(body)
    if tail.strip() != "false": return None
    tk = lex(stm)
    if any(x.s in ("?", "|", "||") for x in tk): return None
    rets = [n for n, x in enumerate(tk) if x.s == "return"]
    if not rets or any(tk[n + 1].s != "true" or tk[n + 2].s != ";" for n in rets): return None
    binds = [(p, ty, a) for (p, ty), a in zip(c["params"], args) if not (p == a.strip())]
    binds, stm = place_args(binds, stm)
    tk = lex(stm)
    a = text(s, pc + 2, e)
    if local_names(lex(a)) & (set(binders(tk, 0, len(tk))) | {re.sub(r"^mut\s+", "", p) for p, _, _ in binds}): return None
    if any(re.search(r"\b%s\b" % re.escape(re.sub(r"^mut\s+", "", p)), y) for k, (p, _, _) in enumerate(binds) for _, _, y in binds[k + 1:]): return None
    rets = [n for n, x in enumerate(tk) if x.s == "return"]
    out, pos = [], 0
    for n in rets: out += [stm[pos:tk[n].a], a]; pos = tk[n + 2].b
    pre = " ".join("let %s%s = %s;" % (p, ": " + ty if ty else "", y) for p, ty, y in binds)
    new = pre + " " + "".join(out) + stm[pos:]
    if binds or top_lets(stm): new = "{ " + new + " }"
    return s.text[:t[start - 1].a] + new + s.text[t[e].b:]

def one_call(s, cands):
    """inline the first call that can be; True if there was one"""
    t = s.toks
    for f, im in fns(s):
        for i in range(f["body"], f["end"]):
            if t[i].k != "id" or t[i + 1].s != "(": continue
            for c in cands:
                if c["name"] != t[i].s or c["f"]["kw"] == f["kw"]: continue
                start, recv = i, None
                if t[i - 1].s == ".":
                    if c["self"] is None: continue
                    a = i - 2
                    if t[a].k != "id": continue
                    while t[a - 1].s == "." and t[a - 2].k == "id": a -= 2
                    if t[a - 1].s in (".", "::"): continue
                    start, recv = a, text(s, a, i - 1)
                elif t[i - 1].s == "::":
                    if c["self"] is not None or c["im"] is None or t[i - 2].s not in ("Self", c["typ"]) or t[i - 3].s == "::": continue
                    start = i - 2
                elif c["im"] is not None or t[i - 1].s == "fn": continue
                pc = match_close(t, i + 1)
                args = [text(s, lo, hi) for lo, hi in split_commas(t, i + 2, pc)]
                if len(args) != len(c["params"]): continue
                # control flow
                new = found_then(s, c, start, pc, args)
                if new:
                    s.text, s.toks = new, lex(new)
                    return c["name"]
                tail = t[pc + 1].s == "}" and pc + 1 == f["end"] and f["kw"] != c["f"]["kw"]
                retst = t[start - 1].s == "return" and t[pc + 1].s == ";"
                if c["leaves"] and not ((t[pc + 1].s == "?" and c["errs"]) or tail or retst): continue
                if t[pc + 1].s != "?" and c["leaves"]:
                    j = f["kw"] + 2
                    fr = [x.s for x in t[match_close(t, j) + 1:f["body"]]] if t[j].s == "(" else None
                    if fr != c["ret"]: continue
                body = text(s, c["f"]["body"] + 1, c["f"]["end"])
                if im is not c["im"] and (im is None or c["im"] is None or im["kw"] != c["im"]["kw"]) and re.search(r"\bSelf\b", body): continue
                if recv and re.match(r"\w+", recv).group(0) in binders(t, c["f"]["body"], c["f"]["end"]): continue
                bt = t[c["f"]["body"] + 1:c["f"]["end"]]
                if recv is not None and recv != "self":
                    base = s.toks[c["f"]["body"] + 1].a if bt else 0
                    out, pos = [], base
                    for x in bt:
                        if x.s == "self" and x.k == "id": out += [s.text[pos:x.a], recv]; pos = x.b
                    body = "".join(out) + s.text[pos:bt[-1].b] if bt else ""
                names = [re.sub(r"^mut\s+", "", p) for p, _ in c["params"]]
                if c["single"] and all(SIMPLE.match(a) and not a.strip()[:1].isdigit() for a in args) and all(re.match(r"\w+$", p) for p, _ in c["params"]):
                    m = {n: a for n, a in zip(names, args) if n != a.strip()}
                    tk = lex(body)
                    out, pos = [], 0
                    for n, x in enumerate(tk):
                        if x.k == "id" and x.s in m and (n == 0 or tk[n - 1].s != "."):
                            a = m[x.s].strip()
                            out += [body[pos:x.a], a if re.match(r"[\w.]+$", a) else "(" + a + ")"]; pos = x.b
                    new = "(" + "".join(out) + body[pos:] + ")"
                    if not bt: new = "()"
                    if t[start - 1].s in (";", "{", "}") and t[pc + 1].s == ";": new = new[1:-1]
                else:
                    binds = [(p, ty, a) for (p, ty), a in zip(c["params"], args) if not (p == a.strip())]
                    if recv is None or recv == "self": binds, body = place_args(binds, body)
                    fl = flat(s, f, start, pc, binds, body, t[pc + 1].s == "?")
                    if fl:
                        s.text = s.text[:t[fl[0]].a] + fl[2] + s.text[t[fl[1]].b:]
                        s.toks = lex(s.text)
                        return c["name"]
                    clash = any(re.search(r"\b%s\b" % re.escape(re.sub(r"^mut\s+", "", p)), a2) for k, (p, _, _) in enumerate(binds) for _, _, a2 in binds[k + 1:])
                    if clash:
                        pre = "let (%s) = (%s);" % (", ".join(p for p, _, _ in binds) + ",", ", ".join(a for _, _, a in binds) + ",")
                    else:
                        pre = " ".join("let %s%s = %s;" % (p, ": " + ty if ty else "", a) for p, ty, a in binds)
                    new = "{ %s %s }" % (pre, body)
                    stmt = t[start - 1].s in (";", "{", "}") and t[pc + 1].s == ";"
                    if (tail or stmt) and not binds: new = body + (";" if stmt and body.strip() and not body.strip().endswith((";", "}")) else "")
                    if not (tail or stmt): new = "(" + new + ")"
                    if stmt and not binds and re.search(r"\blet\b", body): new = "{ " + body + " }"
                    if stmt and new.rstrip().endswith("}"): pc += 1
                s.text = s.text[:t[start].a] + new + s.text[t[pc].b:]
                s.toks = lex(s.text)
                return c["name"]
    return None

KW = {"let", "mut", "ref", "for", "in", "if", "else", "match", "while", "loop", "return", "break", "continue", "as", "true", "false", "move", "fn"}

def local_names(tk, skip=()):
    """identifiers that may be local variables of this text"""
    return {x.s for n, x in enumerate(tk) if x.k == "id" and x.s not in KW and (x.s[0].islower() or x.s[0] == "_") and x.s not in skip
            and (n == 0 or tk[n - 1].s not in (".", "::")) and (n + 1 >= len(tk) or tk[n + 1].s not in ("(", "::", "!"))}

def rename(body, m):
    tk = lex(body)
    out, pos = [], 0
    for n, x in enumerate(tk):
        if x.k == "id" and x.s in m and (n == 0 or tk[n - 1].s != "."):
            out += [body[pos:x.a], m[x.s]]; pos = x.b
    return "".join(out) + body[pos:]

def place_args(binds, body):
    """parameters that can be replaced by the variable they are given: `x`, or `&x`/`&mut x` where only the place is used"""
    rest = []
    for p, ty, a in binds:
        m = re.match(r"(&\s*mut\s+|&\s*)?([a-z_]\w*)$", a.strip())
        tk = lex(body)
        uses = [n for n, x in enumerate(tk) if x.k == "id" and x.s == p and (n == 0 or tk[n - 1].s != ".")]
        if not m or not re.match(r"\w+$", p) or (m.group(2) != p and m.group(2) in local_names(tk)) or m.group(2) == "self" or p in binders(tk, 0, len(tk)): rest.append((p, ty, a)); continue
        v = m.group(2)
        if m.group(1) is None: body = rename(body, {p: v}); continue
        star = [n for n in uses if n and tk[n - 1].s == "*" and tk[n - 2].s in ("(", "{", "}", ";", "=", "+", "-", "+=", "-=", "<", ">", "==", ",")]
        whole = [n for n in uses if n and tk[n - 1].s in ("(", ",", "in", "=") and n + 1 < len(tk) and tk[n + 1].s in (")", ",", "{", ";")]
        if not all(n in star or n in whole or tk[n + 1].s in (".", "[") for n in uses): rest.append((p, ty, a)); continue
        out, pos = [], 0
        for n in uses:
            out += [body[pos:tk[n - 1].a if n in star else tk[n].a], m.group(1) + v if n in whole else v]; pos = tk[n].b
        body = "".join(out) + body[pos:]
    return rest, body

def tail_split(body):
    """(statements, tail expression)"""
    tk = lex(body)
    d, cut, n = 0, 0, 0
    while n < len(tk):
        if tk[n].s in OPEN:
            e = match_close(tk, n)
            # a block statement
            if tk[n].s == "{" and e + 1 < len(tk) and tk[e + 1].s not in (".", "?", ";", "else", ")", ",") and tk[cut].s in ("if", "for", "while", "loop", "match", "{"): cut = e + 1
            n = e
        elif tk[n].s == ";": cut = n + 1
        n += 1
    return (body[:tk[cut].a], body[tk[cut].a:tk[-1].b]) if cut < len(tk) else (body, "")

def top_lets(stm):
    """names a statement list leaves bound"""
    tk = lex(stm)
    out, n = set(), 0
    while n < len(tk):
        if tk[n].s in OPEN: n = match_close(tk, n)
        elif tk[n].s == "let":
            e = n + 1
            while e < len(tk) and tk[e].s not in ("=", ";"): e = match_close(tk, e) + 1 if tk[e].s in OPEN else e + 1
            out |= {x.s for x in tk[n + 1:e] if x.k == "id" and x.s not in KW}
        n += 1
    return out

def flat(s, f, start, pc, binds, body, q):
    """`let PAT = helper(..);` as the helper's statements and `let PAT = its value;`: (from token, to token, text) or None"""
    t = s.toks
    end = pc + (2 if q else 1)
    if t[end].s != ";" or t[start - 1].s != "=": return None
    l = start - 2
    while l > f["body"] and t[l].s not in ("let", ";", "{", "}"): l -= 1
    if t[l].s != "let": return None
    pat = text(s, l + 1, start - 1)
    m = re.match(r"(mut\s+)?([a-z_]\w*)\s*(:.*)?$", pat, re.S)
    if not m: return None
    stm, tail = tail_split(body)
    if q:
        k = re.match(r"Ok\s*\((.*)\)$", tail.strip(), re.S)
        if not k or match_close(lex(tail), 1) != len(lex(tail)) - 1: return None
        tail = k.group(1)
    if not stm.strip() or not tail.strip(): return None
    x = m.group(2)
    tv = tail.strip()
    if re.match(r"[a-z_]\w*$", tv) and tv != x and x not in local_names(lex(body)) and tv in binders(lex(body), 0, len(lex(body))):
        stm, tv = rename(stm, {tv: x}), x
    inner = top_lets(stm) | {re.sub(r"^mut\s+", "", p) for p, _, _ in binds}
    outer = local_names(t[f["kw"]:l] + t[end:f["end"]])
    args = set()
    for _, _, a in binds: args |= local_names(lex(a))
    if (inner - {x}) & outer or args & {re.sub(r"^mut\s+", "", p) for p, _, _ in binds}: return None
    if tv == x and m.group(3) is None and not (m.group(1) and re.search(r"\blet\s+%s\b" % x, stm)): last = ""
    else: last = "let %s = %s;" % (pat, tv if tv else tail)
    pre = " ".join("let %s%s = %s;" % (p, ": " + ty if ty else "", a) for p, ty, a in binds)
    return l, end, "%s %s %s" % (pre, stm, last)

def inline(s, known):
    done = []
    for _ in range(40):
        c = candidates(s, known)
        if not c: break
        n = one_call(s, c)
        if n is None: break
        done.append(n)
    return sorted(set(done))

def leaves(blk):
    """the block ends by leaving the iteration or the function, and not through an unlabelled break/continue anywhere"""
    last = max([n for n, x in enumerate(blk) if x.s in ("continue", "return")], default=None)
    if last is None or blk[-1].s != ";" or any(x.s in (";", "}", "{", "?") for x in blk[last:-1]): return False
    return not any(x.s in ("break", "continue") and blk[n + 1].s == ";" for n, x in enumerate(blk))

def written_out(s):
    """`let X = V.iter().any(|P| C);`, `let X = V.contains(&C);` -> the loop they mean; so `if V.iter().any(|P| C) { A; leave }`"""
    t = s.toks
    for i in range(len(t) - 8):
        w = [x.s for x in t[i:i + 8]]
        if t[i].k != "id" or t[i - 1].s in (".", "::", "&", "*", "!"): continue
        if w[1:7] == [".", "iter", "(", ")", ".", "any"] and w[7] == "(":
            e = match_close(t, i + 7)
            if t[i + 8].s != "|": continue
            k = i + 9
            ref = t[k].s == "&"
            if ref: k += 1
            if t[k].k != "id" or t[k + 1].s != "|": continue
            var = t[k].s
            cond = text(s, k + 2, e).strip().rstrip(",")
            if cond.startswith("{") or re.search(r"\breturn\b|\?", cond): continue
        elif w[1:4] == [".", "contains", "("] and w[4] == "&":
            e = match_close(t, i + 3)
            var, ref = "item", False
            cond = "*item == " + text(s, i + 5, e)
            if re.search(r"\bitem\b", text(s, i + 5, e)): continue
        else: continue
        head = "for %s in %s.iter() {%s if %s {" % (var, t[i].s, " let %s = *%s;" % (var, var) if ref else "", cond)
        fn = next(((f, im) for f, im in fns(s) if f["body"] < i < f["end"]), None)
        if fn is None: continue
        f = fn[0]
        if t[i - 1].s == "=" and t[e + 1].s == ";":
            l = i - 2
            while t[l].s not in ("let", ";", "{", "}"): l -= 1
            m = re.match(r"(mut\s+)?([a-z_]\w*)(\s*:\s*bool)?$", text(s, l + 1, i - 1))
            if t[l].s != "let" or not m: continue
            x = m.group(2)
            if re.search(r"\b%s\b" % x, cond) or var == x: continue
            uses = [q for q in range(f["body"], f["end"]) if t[q].s == x and t[q].k == "id" and t[q - 1].s != "."]
            if t[e + 2].s == "if" and t[e + 3].s == x and t[e + 4].s == "{" and len(uses) == 2:
                c = match_close(t, e + 4)
                if t[c + 1].s != "else" and leaves(t[e + 5:c]) and var not in local_names(t[e + 5:c]):
                    s.text = s.text[:t[l].a] + head + text(s, e + 5, c) + " } }" + s.text[t[c].b:]
                    s.toks = lex(s.text)
                    return True
            s.text = s.text[:t[l].a] + "let mut %s = false; %s %s = true; break; } }" % (x, head, x) + s.text[t[e + 1].b:]
            s.toks = lex(s.text)
            return True
        if t[i - 1].s == "if" and t[i - 2].s in (";", "{", "}") and t[e + 1].s == "{":
            c = match_close(t, e + 1)
            if t[c + 1].s == "else" or not leaves(t[e + 2:c]) or var in local_names(t[e + 2:c]): continue
            s.text = s.text[:t[i - 1].a] + head + text(s, e + 2, c) + " } }" + s.text[t[c].b:]
            s.toks = lex(s.text)
            return True
    return False
