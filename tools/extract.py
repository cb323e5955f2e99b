#!/usr/bin/env python3
"""Mechanical extraction of functions from /repo/src into a single Verus file.

A unit file (contracts/<unit>.vc) is a sequence of directives:

  #include other.vc               textual inclusion (each file once)
  #raw ... #end                   specification text, copied as is
  #struct FILE NAME [attrs]       copy a struct/enum verbatim (doc comments and attributes dropped)
  #const FILE NAME                copy a const item verbatim
  #type  FILE NAME                copy a type alias verbatim
  #impl  FILE Trait for Type      the following #fn items are members of that trait impl; ended by #endimpl
                                  (`#impl FILE Trait for Type inherent`: as functions of the type itself)
  #cast TYPE FUNCTION             `E as TYPE` becomes `FUNCTION(E)`
  #neg FUNCTION                  `-(E)` becomes `FUNCTION(E)`
  #desugar REGEX                  `for` loops whose iterated expression (tokens separated by blanks) matches call `next` explicitly
  #trait FILE NAME                copy a trait; `@decl` text is put at the start of its body, `@method NAME RET` text is the
                                  contract of a required method with result RET
  #stubimpl UNIT FILE Trait for Type   the trait impl that UNIT proves: its specification functions, its functions without bodies
  #pure FILES                     refuse files in which equal arguments might give different results
  #stub UNIT FILE PATH [NAME]     (lines `@also CLAUSE` may follow: further postconditions that are assumed) signature and contract of a function that UNIT proves, without its body
                                  (the contract is taken from that unit's file)
  #fn FILE PATH                   copy a function; PATH is `name` or `Type::name`
      @ret NAME                   name of the return value
      @attr TEXT                  attribute put before the function
      @sub "A" => "B"             token-sequence substitution inside this function (optional match)
      @desugar                    `for` loops that have a label or lie in one that has call `next` explicitly
      @spec ... requires/ensures  (up to the next directive)
      @entry                      text at the start of the body
      @exit                       text before the closing brace of the body (unit functions only)
      @loop K [it NAME]           invariant text of loop K (1-based, textual order)
      @loopstart K / @loopend K / @beforeloop K / @afterloop K
      @afterlet NAME [K]          after the K-th `let [mut] NAME ...;`
      @beforetail                 before the tail expression of the body
      @after "tokens" [K]         after the statement containing the K-th match of the token sequence
      @before "tokens" [K]        before the statement that starts with that token sequence

Nothing else of the function is touched: the executable text between the insertions is the text
found in /repo.  Everything that is dropped or substituted is recorded in the report.
"""
import re, difflib, sys, os, json

class ExtractError(Exception): pass

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<lc>//[^\n]*)
 | (?P<bc>/\*.*?\*/)
 | (?P<rstr>b?r(?P<h>\#*)".*?"(?P=h))
 | (?P<str>b?"(?:\\.|[^"\\])*")
 | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])')
 | (?P<life>'[A-Za-z_]\w*)
 | (?P<num>0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|\d[\d_]*(?:\.(?!\.|[A-Za-z_])[\d_]*)?(?:[eE][+-]?\d+)?(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op>::|->|=>|\.\.=|\.\.\.|\.\.|<<=|>>=|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|.)
''', re.X | re.S)

class T:
    __slots__ = ("k", "s", "a", "b")
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self): return self.s

def lex(src):
    out, i = [], 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m: raise ExtractError("lex error at %r" % src[i:i+20])
        k = m.lastgroup
        if k == "h": k = "rstr"
        if k not in ("ws", "lc", "bc"):
            out.append(T(k, m.group(0), m.start(), m.end()))
        i = m.end()
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].s in OPEN and toks[j].k == "op": d += 1
        elif toks[j].s in (")", "]", "}") and toks[j].k == "op":
            d -= 1
            if d == 0: return j
    raise ExtractError("unbalanced")

def match_open(toks, i):
    d = 0
    for j in range(i, -1, -1):
        if toks[j].s in (")", "]", "}") and toks[j].k == "op": d += 1
        elif toks[j].s in OPEN and toks[j].k == "op":
            d -= 1
            if d == 0: return j
    raise ExtractError("unbalanced")

def operand(toks, i):
    """start of the operand of the `as` at i: a postfix expression with its prefix operators"""
    p = i - 1
    while True:
        if toks[p].s == "?": p -= 1; continue
        if toks[p].s in (")", "]"):
            p = match_open(toks, p)
            if toks[p - 1].k == "id" and toks[p - 1].s not in ("in", "return", "if", "match", "let", "as", "else", "while") or toks[p - 1].s in (")", "]", "?"): p -= 1; continue
        elif toks[p].k not in ("id", "num"): raise ExtractError("operand of a cast")
        if toks[p - 1].s in (".", "::"): p -= 2; continue
        break
    while toks[p - 1].s in ("-", "*", "!", "&") and not (toks[p - 2].k in ("id", "num") or toks[p - 2].s in (")", "]", "?")): p -= 1
    return p

def seq_find(toks, pat, lo=0, hi=None):
    """start indexes where the token text sequence pat occurs"""
    hi = len(toks) if hi is None else hi
    n = len(pat)
    return [i for i in range(lo, hi - n + 1) if all(toks[i + q].s == pat[q] for q in range(n))]

class Src:
    def __init__(self, root, rel):
        p = os.path.join(root, rel)
        if not os.path.exists(p): raise ExtractError("lost file %s" % rel)
        self.rel, self.text = rel, open(p, encoding="utf-8").read()
        self.toks = lex(self.text)

    def items(self):
        """top-level items: (kind, header tokens range, ...)"""
        return self._items(0, len(self.toks))

    def _items(self, lo, hi):
        toks, out, i = self.toks, [], lo
        start, cfg = None, []
        while i < hi:
            t = toks[i]
            if start is None: start, cfg = i, []
            if t.s == "#":
                j = i + 1
                if toks[j].s == "!": j += 1
                e = match_close(toks, j)
                a = "".join(x.s for x in toks[j:e + 1])
                cfg.append(a)
                i = e + 1
                if toks[i - 1].s == "]" and start == i: start = i
                continue
            if t.s == "pub":
                i += 1
                if toks[i].s == "(": i = match_close(toks, i) + 1
                continue
            if t.s in ("async", "unsafe", "default"): i += 1; continue
            if t.s == "const" and toks[i + 1].s == "fn": i += 1; continue
            kw = t.s
            if kw == "fn":
                name = toks[i + 1].s
                j = i + 2
                while toks[j].s not in ("{", ";"):
                    if toks[j].s in ("(", "["): j = match_close(toks, j)
                    j += 1
                e = match_close(toks, j) if toks[j].s == "{" else j
                out.append(dict(kind="fn", name=name, start=start, kw=i, body=j, end=e, cfg=cfg))
                i, start = e + 1, None
            elif kw in ("impl", "trait", "mod", "extern"):
                j = i
                while toks[j].s not in ("{", ";"):
                    if toks[j].s in ("(", "["): j = match_close(toks, j)
                    j += 1
                e = match_close(toks, j) if toks[j].s == "{" else j
                out.append(dict(kind=kw, name=toks[i + 1].s, start=start, kw=i, body=j, end=e, cfg=cfg))
                i, start = e + 1, None
            elif kw in ("struct", "enum", "union"):
                name = toks[i + 1].s
                j = i + 2
                while toks[j].s not in ("{", ";"):
                    if toks[j].s in ("(", "["): j = match_close(toks, j)
                    j += 1
                e = match_close(toks, j) if toks[j].s == "{" else j
                out.append(dict(kind=kw, name=name, start=start, kw=i, body=j, end=e, cfg=cfg))
                i, start = e + 1, None
            elif kw in ("const", "static", "type", "use"):
                name = toks[i + 1].s if toks[i + 1].s != "mut" else toks[i + 2].s
                j = i
                while toks[j].s != ";":
                    if toks[j].s in OPEN: j = match_close(toks, j)
                    j += 1
                out.append(dict(kind=kw, name=name, start=start, kw=i, body=None, end=j, cfg=cfg))
                i, start = j + 1, None
            elif t.k == "id" and toks[i + 1].s == "!":
                j = i + 2
                while toks[j].s not in OPEN: j += 1
                e = match_close(toks, j)
                if e + 1 < hi and toks[e + 1].s == ";": e += 1
                out.append(dict(kind="macro", name=t.s, start=start, kw=i, body=None, end=e, cfg=cfg))
                i, start = e + 1, None
            else:
                i, start = i + 1, None
        return out

    def find_impl(self, header):
        """header e.g. 'Mul<GF8> for GF8', 'Chomp' (inherent).  Generic parameters of the impl are skipped."""
        want = [t.s for t in lex(header)]
        res = []
        for it in self.items():
            if it["kind"] != "impl" or any("cfg(test)" in c for c in it["cfg"]): continue
            h = self.toks[it["kw"] + 1: it["body"]]
            hs = [t.s for t in h]
            if hs and hs[0] == "<":
                d = 0
                for q, s in enumerate(hs):
                    if s == "<": d += 1
                    elif s == ">":
                        d -= 1
                        if d == 0: break
                hs = hs[q + 1:]
            if "where" in hs: hs = hs[:hs.index("where")]
            strip = lambda l: [s for s in l]
            if hs == want: res.append(it)
            elif "for" not in want and "for" not in hs and hs and hs[0] == want[0]: res.append(it)
        return res

    def find_fn(self, path, impl=None):
        if impl is not None:
            its = [f for im in self.find_impl(impl) for f in self._items(im["body"] + 1, im["end"])]
            name = path.split("::")[-1]
        elif "::" in path:
            ty, name = path.split("::")
            its = [f for im in self.find_impl(ty) for f in self._items(im["body"] + 1, im["end"])]
        else:
            its, name = self.items(), path
        c = [f for f in its if f["kind"] == "fn" and f["name"] == name and not any("cfg(test)" in x for x in f["cfg"])]
        if len(c) != 1: raise ExtractError("lost anchor: fn %s in %s (%d candidates)" % (path, self.rel, len(c)))
        return c[0]

    def find_item(self, kinds, name):
        c = [f for f in self.items() if f["kind"] in kinds and f["name"] == name]
        if len(c) != 1: raise ExtractError("lost anchor: %s %s in %s" % ("/".join(kinds), name, self.rel))
        return c[0]

def binders(toks, lo, hi):
    """identifiers bound by parameters, let, for, if/while let and closures - in textual order (heuristic)"""
    out = []
    i = lo
    while i < hi:
        s = toks[i].s
        if s == "let":
            j = i + 1
            d = 0
            while j < hi and not (d == 0 and toks[j].s in ("=", ";", ":")):
                if toks[j].s in OPEN: d += 1
                elif toks[j].s in (")", "]", "}"): d -= 1
                elif toks[j].k == "id" and toks[j].s[0].islower() and toks[j].s not in ("mut", "ref") and toks[j+1].s not in ("::", "("):
                    out.append(toks[j].s)
                j += 1
            i = j
        elif s == "for" and i + 1 < hi and toks[i + 1].s != "<":
            j = i + 1
            while j < hi and toks[j].s != "in":
                if toks[j].k == "id" and toks[j].s[0].islower() and toks[j].s not in ("mut", "ref"): out.append(toks[j].s)
                j += 1
            i = j
        i += 1
    return out

def param_names(toks, f):
    j = f["kw"] + 2
    if toks[j].s == "<":
        d = 0
        while True:
            if toks[j].s == "<": d += 1
            elif toks[j].s == ">": d -= 1
            elif toks[j].s == ">>": d -= 2
            j += 1
            if d == 0: break
    e = match_close(toks, j)
    out = []
    d = 0
    for q in range(j + 1, e):
        s = toks[q].s
        if s in OPEN or s == "<": d += 1
        elif s in (")", "]", "}", ">"): d -= 1
        if d == 0 and toks[q].k == "id" and toks[q + 1].s == ":" : out.append(s)
    return out

def loops(toks, lo, hi):
    """[(kw index, in-index or None, body open index, body close index)] in textual order"""
    out, i = [], lo
    while i < hi:
        s = toks[i].s
        if toks[i].k == "id" and s in ("while", "for", "loop") and not (s == "for" and toks[i + 1].s == "<"):
            j, inn = i + 1, None
            while toks[j].s != "{":
                if toks[j].s == "in" and s == "for" and inn is None: inn = j
                if toks[j].s in ("(", "["): j = match_close(toks, j)
                j += 1
            out.append((i, inn, j, match_close(toks, j)))
        i += 1
    return out

def stmt_end(toks, i, hi):
    """index of the ';' ending the statement that contains token i (same nesting), or of a closing brace of a block statement"""
    d = 0
    j = i
    while j < hi:
        s = toks[j].s
        if s in OPEN: j = match_close(toks, j)
        elif s == ";": return j
        elif s in (")", "]", "}"): return j - 1
        j += 1
    return hi - 1

def block_stmts(toks, lo, hi):
    """statement start indexes directly inside the block with contents toks[lo:hi]"""
    starts, i = [], lo
    new = True
    while i < hi:
        if new:
            starts.append(i); new = False
            first = toks[i].s
            if toks[i].k == "life" and toks[i + 1].s == ":": first = toks[i + 2].s
        s = toks[i].s
        if s in OPEN:
            e = match_close(toks, i)
            if s == "{" and first in ("if", "while", "for", "loop", "match", "unsafe", "{") and \
               not (e + 1 < hi and toks[e + 1].s in ("else", ".", "?")) :
                # block-like statement ends here unless it is an operand
                i = e + 1
                if i < hi and toks[i].s == ";": i += 1
                new = True
                continue
            i = e + 1
            continue
        if s == ";": new = True
        i += 1
    return starts

class Unit:
    def __init__(self, root, cdir, name, names=None, canary=False):
        self.canary = canary
        self.root, self.cdir, self.name = root, cdir, name
        self.srcs, self.out, self.report = {}, [], dict(functions=[], dropped=[], trusted=[], files=set(), canaries=[], relied=[], consts=[])
        self.seen, self.names, self.cur_names = set(), names, {}
        self.macros_drop, self.subs, self.desugar, self.casts, self.negfn = ["debug", "trace"], [], [], {}, None
        self.defs, self.outlined = set(), set(); self.items_done, self.log_used = set(), False
        self.inc(name + ".vc")

    def src(self, rel):
        if rel not in self.srcs:
            self.srcs[rel] = s = Src(self.root, rel)
            import inline
            try:
                done = inline.inline(s, known_functions(self.cdir).get(rel, []))
                while inline.written_out(s): self.note("%s: `.iter().any(..)`/`.contains(..)` on a vector -> the loop it means" % rel)
            except (IndexError, KeyError, ValueError, TypeError, AttributeError): self.srcs[rel] = s = Src(self.root, rel); done = []
            for n in done:
                self.note("%s: fn %s is new and has no contract: its calls are replaced by its body" % (rel, n))
        self.report["files"].add(rel)
        return self.srcs[rel]

    def inc(self, fn):
        if fn in self.seen: return
        self.seen.add(fn)
        lines = self.conditional(open(os.path.join(self.cdir, fn)).read().split("\n"), fn)
        saved = (list(self.macros_drop), list(self.subs), list(self.desugar), dict(self.casts))
        i, impl = 0, None
        while i < len(lines):
            l = lines[i]
            if l.startswith("#include "):
                self.inc(l.split()[1]); i += 1
            elif l.strip() == "#raw":
                j = i + 1
                while lines[j].strip() != "#end": j += 1
                self.out.append("\n".join(lines[i + 1:j])); i = j + 1
            elif l.startswith("#struct ") or l.startswith("#const ") or l.startswith("#type "):
                p = l.split(None, 3)
                self.item(p[0][1:], p[1], p[2], p[3] if len(p) > 3 else ""); i += 1
            elif l.startswith("#outline "):
                self.outline(l); i += 1
            elif l.startswith("#derives "):
                p = l.split()
                it = self.src(p[1]).find_item(("struct", "enum"), p[2])
                for d in p[3:]:
                    if not any(re.match(r"\[derive\(", c) and re.search(r"\b%s\b" % d, c) for c in it["cfg"]): raise ExtractError("lost anchor: derive(%s) on %s" % (d, p[2]))
                self.note("derive(%s) on %s written out" % (", ".join(p[3:]), p[2])); i += 1
            elif l.startswith("#drop "):
                self.macros_drop += l.split()[1:]; i += 1
            elif l.startswith("#desugar "):
                self.desugar.append(l[9:].strip()); i += 1
            elif l.startswith("#neg "):
                self.negfn = l[5:].strip(); i += 1
            elif l.startswith("#cast "):
                self.casts[l.split()[1]] = l.split()[2]; i += 1
            elif l.startswith("#sub "):
                self.subs.append(self.parse_sub(l[5:])); i += 1
            elif l.startswith("#impl "):
                _, rel, hdr = l.split(None, 2)
                inherent = hdr.endswith(" inherent")
                if inherent: hdr = hdr[:-9].strip()
                im = self.src(rel).find_impl(hdr)
                if len(im) != 1: raise ExtractError("lost anchor: impl %s in %s" % (hdr, rel))
                s = self.src(rel)
                h = s.text[s.toks[im[0]["kw"]].a: s.toks[im[0]["body"]].a]
                impl = (rel, hdr)
                if inherent:
                    h = "impl %s " % h[h.index(" for ") + 5:]
                    self.note("%s: as functions of the type itself, not of the trait" % hdr)
                self.out.append(h + "{")
                # associated types
                for q in s._items(im[0]["body"] + 1, im[0]["end"]):
                    if q["kind"] == "type" and not inherent: self.out.append("    " + s.text[s.toks[q["start"]].a: s.toks[q["end"]].b])
                i += 1
            elif l.strip() == "#endimpl":
                self.out.append("}"); impl = None; i += 1
            elif l.startswith("#trait "):
                j = i + 1
                while j < len(lines) and not lines[j].startswith("#"): j += 1
                self.trait(l.split()[1], l.split()[2], lines[i + 1:j]); i = j
            elif l.startswith("#stub "):
                j = i + 1
                while j < len(lines) and lines[j].startswith("@also "): j += 1
                self.stub(*l.split()[1:], also=[x[6:] for x in lines[i + 1:j]]); i = j
            elif l.startswith("#stubimpl "):
                self.stubimpl(*l.split(None, 3)[1:]); i += 1
            elif l.startswith("#pure "):
                self.pure(l.split()[1:]); i += 1
            elif l.startswith("#fn "):
                j = i + 1
                while j < len(lines) and not re.match(r"#(include|raw|derives|struct|const|type|trait|stubimpl|stub|pure|impl|endimpl|fn|drop|desugar|cast|neg|sub|end)\b", lines[j]): j += 1
                p = l.split()
                self.fn(p[1], p[2], lines[i + 1:j], impl)
                i = j
            elif l.strip() == "" or l.startswith("//"): i += 1
            else: raise SystemExit("%s:%d: bad directive %r" % (fn, i + 1, l))
        self.macros_drop, self.subs, self.desugar, self.casts = saved

    def conditional(self, lines, fn):
        out, on = [], [True]
        for l in lines:
            w = l.split()
            if l.startswith("#define "): self.defs.add(w[1])
            elif l.startswith("#ifdef "): on.append(on[-1] and w[1] in self.defs)
            elif l.startswith("#else"): on[-1] = on[-2] and not on[-1]
            elif l.startswith("#endif"): on.pop()
            elif on[-1]: out.append(l)
        if len(on) != 1: raise SystemExit("%s: unbalanced #ifdef" % fn)
        return out

    FEATURE = 'cfg(feature="debug-images")'
    def outline(self, l):
        """#outline FILE FN NAME(PARAMS) [-> TYPE] = ARGS: the first remaining statement of FN under the feature becomes a function
        of what ARGS hands it, and a call of it; with the feature this is the same program"""
        m = re.match(r"#outline (\S+) (\S+) (\w+)\((.*?)\)\s*(->\s*\w+)?\s*=\s*(.*)$", l)
        rel, path, name, params, ret, args = m.groups()
        s = self.src(rel)
        if rel not in self.outlined:
            self.outlined.add(rel)
            self.feature_uses(rel)
        cands = [f for f in self.all_fns(s) if f["name"] == path]
        if len(cands) != 1: raise ExtractError("lost anchor: fn %s in %s" % (path, rel))
        f, toks = cands[0], s.toks
        # locals renamed since the contracts were written
        for key, old in (self.names or {}).items():
            if key.startswith(rel + "::") and (key.endswith("::" + path)) and "#" not in key:
                bl = param_names(toks, f) + binders(toks, f["body"], f["end"])
                if rel + path not in self.outlined: self.ren0 = {a: b for a, b in zip(old, bl) if a != b} if len(old) == len(bl) else {}
        self.outlined.add(rel + path)
        ren = getattr(self, "ren0", {})
        rn = lambda t: re.sub(r"(?<![\w.])(?:%s)\b" % "|".join(map(re.escape, ren)), lambda q: ren[q.group(0)], t) if ren else t
        i = f["body"]
        while i < f["end"] and not (toks[i].s == "#" and toks[i + 1].s == "[" and self.FEATURE in "".join(x.s for x in toks[i:match_close(toks, i + 1) + 1])): i += 1
        if i >= f["end"]: raise ExtractError("lost anchor: debug statement %s of %s" % (name, path))
        q = match_close(toks, i + 1) + 1
        if toks[q].s == "{":
            q2 = match_close(toks, q)
            call, body = "%s(%s);" % (name, rn(args)), s.text[toks[q].a: toks[q2].b]
        elif toks[q].s == "let" and ret:
            q2 = stmt_end(toks, q, f["end"])
            e = q
            while toks[e].s != "=": e += 1
            call, body = s.text[toks[q].a: toks[e].b] + " %s(%s);" % (name, rn(args)), "{ %s }" % s.text[toks[e + 1].a: toks[q2 - 1].b]
        else: raise ExtractError("debug statement %s of %s has another form" % (name, path))
        self.outlined.add("fn " + name)
        s.text = s.text[:toks[i].a] + call + s.text[toks[q2].b:] + "\nfn %s(%s) %s %s\n" % (name, rn(params), ret or "", body)
        s.toks = lex(s.text)
        self.note("%s: the statement under feature debug-images became the function %s" % (path, name))

    def all_fns(self, s):
        out = []
        for it in s.items():
            if any("cfg(test)" in c for c in it["cfg"]): continue
            if it["kind"] == "fn": out.append(it)
            elif it["kind"] == "impl": out += [x for x in s._items(it["body"] + 1, it["end"]) if x["kind"] == "fn"]
        return out

    def feature_uses(self, rel):
        """the feature may only guard `use` items and the statements that are outlined"""
        src = os.path.join(self.root, "src")
        for d, _, fs in os.walk(src):
            for f in fs:
                if not f.endswith(".rs"): continue
                o = Src(self.root, os.path.relpath(os.path.join(d, f), self.root))
                for i, t in enumerate(o.toks):
                    if "debug-images" in t.s and t.k not in ("doc", "comment"):
                        a = "".join(x.s for x in o.toks[max(0, i - 6):i + 3])
                        if a == '#[' + self.FEATURE + ']' and o.rel in ("src/detect/linescan.rs", "src/extract/qr/mod.rs"): continue
                        if i > 0 and o.toks[i - 1].s == "(" and o.toks[i - 2].s == "push": continue      # the name of the folder
                        raise ExtractError("the feature is used in another way: %s in %s" % (a[:60], o.rel))

    @staticmethod
    def parse_sub(txt):
        m = re.match(r'\s*`(.*)`\s*=>\s*`(.*)`\s*$', txt) or re.match(r'\s*"(.*)"\s*=>\s*"(.*)"\s*$', txt)
        if not m: raise SystemExit("bad substitution " + txt)
        return [t.s for t in lex(m.group(1))], m.group(2)

    def item(self, kind, rel, name, attrs):
        if (rel, name) in self.items_done: return
        self.items_done.add((rel, name))
        s = self.src(rel)
        kinds = {"struct": ("struct", "enum"), "const": ("const", "static"), "type": ("type",)}[kind]
        it = s.find_item(kinds, name)
        if kind == "const": self.report["consts"].append([name, rel])
        i = it["kw"]
        pub = "pub "
        txt = s.text[s.toks[i].a: s.toks[it["end"]].b]
        # drop attributes / doc comments inside, make fields public (specification needs to see them)
        tk = lex(txt)
        res, q = [], 0
        depth = 0
        is_struct = tk[0].s == "struct"
        expect_field, opened = False, False
        while q < len(tk):
            t = tk[q]
            if t.s == "#" and tk[q + 1].s == "[":
                q = match_close(tk, q + 1) + 1; continue
            if t.s == "pub":
                q += 1
                if tk[q].s == "(": q = match_close(tk, q) + 1
                continue
            if is_struct and t.s in ("{", "(") and depth == 0:
                res.append(t.s); depth += 1; expect_field, opened = True, True; q += 1; continue
            if t.s in ("<",) : depth += 1
            if t.s in (">",) : depth -= 1
            if t.s == ">>": depth -= 2
            if t.s in OPEN: depth += 1
            if t.s in (")", "]", "}"): depth -= 1
            if is_struct and expect_field and t.s not in ("}", ")"):
                res.append("pub"); expect_field = False
            if is_struct and opened and t.s == "," and depth == 1: expect_field = True
            res.append(t.s); q += 1
        for pat, rep in self.subs:
            k = 0
            while k + len(pat) <= len(res):
                if res[k:k + len(pat)] == pat:
                    res[k:k + len(pat)] = [rep]
                    self.note("%s %s: `%s` -> `%s`" % (kind, name, " ".join(pat), rep))
                k += 1
        self.out.append((attrs + "\n" if attrs else "") + pub + " ".join(res) + ("" if True else ""))

    def note(self, s):
        if s not in self.report["dropped"]: self.report["dropped"].append(s)

    def trait(self, rel, name, ann):
        if (rel, name) in self.items_done: return
        self.items_done.add((rel, name))
        s = self.src(rel)
        it = s.find_item(("trait",), name)
        toks, edits, cur = s.toks, [], None
        for l in ann:
            if l.startswith("@decl"):
                cur = [toks[it["body"]].b, "", "\n"]; edits.append(cur)
            elif l.startswith("@method"):
                _, m, ret = l.split()
                c = [f for f in s._items(it["body"] + 1, it["end"]) if f["kind"] == "fn" and f["name"] == m]
                if len(c) != 1 or toks[c[0]["end"]].s != ";": raise ExtractError("lost anchor: method %s of trait %s" % (m, name))
                j, arrow = c[0]["kw"] + 2, None
                while j < c[0]["end"]:
                    if toks[j].s in ("(", "["): j = match_close(toks, j)
                    if toks[j].s == "->": arrow = j
                    j += 1
                if arrow is not None:
                    edits.append([toks[arrow + 1].a, "(%s: " % ret, ""])
                    cur = [toks[c[0]["end"]].a, ")\n", ""]
                else: cur = [toks[c[0]["end"]].a, "\n", ""]
                edits.append(cur)
            elif cur is not None: cur[2] += l + "\n"
        res, pos = ["pub "], toks[it["kw"]].a
        for a, x, y in sorted(edits, key=lambda e: e[0]):
            res += [s.text[pos:a], x + y]; pos = a
        self.out.append("".join(res) + s.text[pos:toks[it["end"]].b])

    IMPURE = set("static unsafe extern thread_local lazy_static Cell RefCell UnsafeCell OnceCell LazyCell OnceLock LazyLock Mutex RwLock Instant SystemTime Duration HashMap HashSet RandomState "
                 "env fs io process thread ptr addr_of as_ptr as_mut_ptr transmute asm macro_rules type_name caller backtrace catch_unwind".split())
    def pure(self, rels):
        """the files contain nothing through which equal arguments could give different results: no state outside the arguments,
        no clock, randomness, environment, input, addresses; and they use nothing but std and each other"""
        known = set(os.path.splitext(os.path.basename(r))[0] for r in rels)
        for rel in rels:
            toks = self.src(rel).toks
            for i, t in enumerate(toks):
                bad = None
                if t.k == "id" and (t.s in self.IMPURE or t.s.startswith("Atomic")):
                    bad = t.s
                if t.s == "*" and toks[i + 1].s in ("const", "mut") and toks[i - 1].s == "as": bad = "raw pointer"
                if t.k not in ("id", "num") and "{:p}" in t.s: bad = "{:p}"
                if t.s == "use" and toks[i + 1].s not in ("std", "core", "alloc", "crate", "super", "self", "thiserror") and toks[i + 1].s not in known: bad = "use " + toks[i + 1].s
                if t.s == "crate" and toks[i + 1].s == "::" and toks[i + 2].s not in ("util", "decode"): bad = "crate::" + toks[i + 2].s
                if bad: raise ExtractError("%s: `%s`: that equal arguments give equal results is not evident" % (rel, bad))
        self.report["trusted"].append("equal arguments give equal results in %s (safe code without state, clock, randomness, input or addresses: checked on the tokens)" % ", ".join(rels))

    def stub(self, unit, rel, path, name=None, also=(), impl=None):
        lines = self.conditional(open(os.path.join(self.cdir, unit + ".vc")).read().split("\n"), unit)
        subs, saved = [], list(self.subs)
        inside = impl is None
        for i, l in enumerate(lines):
            if l.startswith("#sub "): subs.append(self.parse_sub(l[5:]))
            if impl and l.startswith("#impl "): inside = l.split(None, 2)[1:] == list(impl)
            if inside and l.split() == ["#fn", rel, path]: break
        else: raise SystemExit("no contract for %s in unit %s" % (path, unit))
        j = i + 1
        while j < len(lines) and not lines[j].startswith("#"): j += 1
        ann, keep = [], False
        for l in lines[i + 1:j]:
            if l.startswith("@"): keep = l.split()[0] in ("@ret", "@spec", "@sub")
            if keep: ann.append(l)
        if also:
            while not ann[-1].strip(): ann.pop()
            if not ann[-1].split("/*")[0].rstrip().endswith(","): raise SystemExit("%s: contract does not end in a comma" % path)
            ann += ["        %s, /*assumed: see #pure*/" % a for a in also]
            self.report["trusted"] += ["assumed of %s: %s" % (path, a) for a in also]
        self.subs = subs
        self.fn(rel, path, ann, impl, (unit, name))
        self.subs = saved

    def stubimpl(self, unit, rel, hdr):
        """the trait impl as `unit` declares and proves it: its specification functions, its functions without their bodies"""
        lines = self.conditional(open(os.path.join(self.cdir, unit + ".vc")).read().split("\n"), unit)
        for i, l in enumerate(lines):
            if l.startswith("#impl ") and l.split(None, 2)[1:] == [rel, hdr]: break
        else: raise SystemExit("no impl %s in unit %s" % (hdr, unit))
        s = self.src(rel)
        im = s.find_impl(hdr)
        if len(im) != 1: raise ExtractError("lost anchor: impl %s in %s" % (hdr, rel))
        self.out.append(s.text[s.toks[im[0]["kw"]].a: s.toks[im[0]["body"]].a] + "{")
        i += 1
        while lines[i].strip() != "#endimpl":
            if lines[i].strip() == "#raw":
                while lines[i + 1].strip() != "#end": self.out.append(lines[i + 1]); i += 1
            elif lines[i].startswith("#fn "): self.stub(unit, rel, lines[i].split()[2], None, (), (rel, hdr))
            i += 1
        self.out.append("}")

    def fn(self, rel, path, ann, impl, stub=None):
        s = self.src(rel)
        f = s.find_fn(path, impl[1] if impl else None)
        toks = s.toks
        key = rel + "::" + ((impl[1] + "::") if impl else "") + path + ("#debug" if self.outlined else "")
        # ---- parse annotations
        secs, cur = [], None
        opts = dict(ret=None, labelled=False, attr=[], subs=[], nocanary=[], closures=[], closurespec=[])
        for l in ann:
            st = l.strip()
            if st.startswith("@"):
                p = st.split(None, 1)
                d, rest = p[0][1:], (p[1] if len(p) > 1 else "")
                if d == "ret": opts["ret"] = rest; cur = None
                elif d == "attr": opts["attr"].append(rest); cur = None
                elif d == "closurespec": opts["closurespec"].append(rest); cur = None
                elif d == "closures": opts["closures"].append(rest); cur = None
                elif d == "desugar": opts["labelled"] = True; cur = None
                elif d == "nocanary": opts["nocanary"].append(rest); cur = None
                elif d == "sub": opts["subs"].append(self.parse_sub(rest)); cur = None
                else:
                    cur = [d, rest, []]; secs.append(cur)
            elif cur is not None: cur[2].append(l)
            elif st: raise SystemExit("%s: stray annotation %r" % (path, l))
        # ---- renaming of locals
        bl = param_names(toks, f) + binders(toks, f["body"], f["end"])
        self.cur_names[key] = bl
        ren = {}
        if self.names is not None and key in self.names:
            old = self.names[key]
            if old != bl:
                m, okay = {}, True
                for op, a0, a1, b0, b1 in difflib.SequenceMatcher(None, old, bl, autojunk=False).get_opcodes():
                    if op != "replace" or a1 - a0 != b1 - b0: continue
                    for a, b in zip(old[a0:a1], bl[b0:b1]):
                        if a in bl or (b in old and len(old) != len(bl)): continue
                        if m.setdefault(a, b) != b: okay = False
                if okay and (len(old) == len(bl) or len(set(m.values())) == len(m)): ren = m
                if ren: self.note("%s: locals renamed in the annotations: %s" % (path, ren))
        def rn(txt):
            if not ren: return txt
            return re.sub(r"(?<![\w.])(?:%s)\b" % "|".join(map(re.escape, ren)), lambda m: ren[m.group(0)], txt)
        edits = []  # (pos, prio, end, text)
        def ins(pos, txt, prio=0): edits.append((pos, prio, pos, txt))
        def rep(a, b, txt): edits.append((a, 0, b, txt))
        # ---- drop macros, attributes in the body
        i = f["kw"]
        dead, logged = [], []
        while i <= f["end"]:
            t = toks[i]
            if t.k == "id" and t.s in self.macros_drop and toks[i + 1].s == "!":
                c = e = match_close(toks, i + 2)
                if toks[e + 1].s == ";": e += 1
                # the arguments are evaluated when the logger wants them
                commas, q = [], i + 3
                while q < c:
                    if toks[q].s in OPEN: q = match_close(toks, q)
                    elif toks[q].s == ",": commas.append(q)
                    q += 1
                if commas and commas[-1] == c - 1: commas.pop()
                named = any(toks[q + 1].k == "id" and toks[q + 2].s == "=" for q in commas)
                if t.s in ("debug", "trace") and commas and not named and not stub and toks[e].s == ";":
                    rep(t.a, toks[commas[0]].b, "if log_on() { let _ = &(")
                    dead.append((i, commas[0]))
                    for q in commas[1:]: rep(toks[q].a, toks[q].b, "); let _ = &("); dead.append((q, q))
                    z = c - 1 if toks[c - 1].s == "," else c
                    rep(toks[z].a, toks[e].b, "); }")
                    dead.append((z, e))
                    logged.append((i, e)); self.log_used = True
                    self.note("%s: `%s!(\"..\", E, ..)` -> `if log_on() { &(E); .. }`: the arguments are evaluated when the logger says so, formatting them is dropped" % (path, t.s))
                    i = commas[0] + 1; continue
                rep(t.a, toks[e].b, "")
                self.note("%s: logging macro %s! without arguments dropped" % (path, t.s))
                dead.append((i, e)); logged.append((i, e)); i = e + 1; continue
            if t.s == "#" and toks[i + 1].s == "[":
                e = match_close(toks, i + 1)
                a = "".join(x.s for x in toks[i:e + 1])
                if 'cfg(feature="debug-images")' in a and self.outlined and "fn " + path not in self.outlined: raise ExtractError("%s: a statement under the feature was not outlined" % path)
                if 'cfg(feature="debug-images")' in a and not self.outlined:
                    # drop the attribute together with the statement it guards
                    q = e + 1
                    q2 = match_close(toks, q) if toks[q].s == "{" else stmt_end(toks, q, f["end"])
                    rep(t.a, toks[q2].b, "")
                    self.note("%s: statements under cfg(feature=\"debug-images\") dropped" % path)
                    dead.append((i, q2)); i = q2 + 1; continue
                rep(t.a, toks[e].b, "")
                dead.append((i, e)); i = e + 1; continue
            i += 1
        def isdead(i): return any(a <= i <= b for a, b in dead)
        if stub:
            rep(toks[f["body"]].b, toks[f["end"]].a, " unimplemented!() ")
            dead.append((f["body"] + 1, f["end"] - 1))
            if stub[1]: rep(toks[f["kw"] + 1].a, toks[f["kw"] + 1].b, stub[1])
            opts["attr"] = ["#[verifier::external_body] /*contract proved in unit %s*/" % stub[0]]
        # ---- token substitutions
        for pat, r in self.subs + opts["subs"]:
            anymac = len(pat) >= 4 and pat[-2:] == ["..", ")"]
            if anymac:
                head = pat[:-2]
                op = max(n for n, x in enumerate(head) if x == "(")
                for q in seq_find(toks, head, f["kw"], f["end"]):
                    if isdead(q): continue
                    e = match_close(toks, q + op)
                    args = s.text[toks[q + len(head)].a: toks[e].a]
                    rep(toks[q].a, toks[e].b, r.replace("$ARGS", args))
                    self.note("%s: `%s..)` -> `%s`" % (path, " ".join(head), r))
                    dead.append((q, e))
            else:
                for q in seq_find(toks, pat, f["kw"], f["end"] + 1):
                    if isdead(q): continue
                    rep(toks[q].a, toks[q + len(pat) - 1].b, r)
                    self.note("%s: `%s` -> `%s`" % (path, " ".join(pat), r))
                    dead.append((q, q + len(pat) - 1))
        # ---- casts named by #cast become calls of a function that says what the cast gives
        for i in range(f["body"], f["end"]):
            if toks[i].s == "as" and toks[i + 1].s in self.casts and not isdead(i):
                p_ = operand(toks, i)
                ins(toks[p_].a, self.casts[toks[i + 1].s] + "(", -4)
                rep(toks[i].a, toks[i + 1].b, ")")
                self.note("%s: `E as %s` -> `%s(E)`" % (path, toks[i + 1].s, self.casts[toks[i + 1].s]))
        # ---- the sign change named by #neg becomes a call
        for i in range(f["body"], f["end"]):
            if self.negfn and toks[i].s == "-" and not isdead(i) and toks[i + 1].s == "(" and (toks[i - 1].k not in ("id", "num") or toks[i - 1].s in ("return", "in", "if", "match", "else")) and toks[i - 1].s not in (")", "]"):
                e = match_close(toks, i + 1)
                while toks[e + 1].s == "." and toks[e + 2].k == "id":
                    e += 2
                    if toks[e + 1].s == "(": e = match_close(toks, e + 1)
                rep(toks[i].a, toks[i].b, self.negfn + "(")
                ins(toks[e].b, ")", 4)
                self.note("%s: `-(E)` -> `%s(E)`" % (path, self.negfn))
        b = f["body"]
        # ---- loops that only log are dropped
        for l in loops(toks, b, f["end"]):
            inner = [q for q in range(l[2] + 1, l[3]) if not isdead(q) and not any(x <= q <= y for x, y in logged)]
            if not inner and l[3] > l[2] + 1 and toks[l[0]].s == "for" and not isdead(l[0]):
                edits = [x for x in edits if not toks[l[0]].a <= x[0] < toks[l[3]].b]
                rep(toks[l[0]].a, toks[l[3]].b, "")
                self.note("%s: a for loop with nothing but logging in it dropped" % path)
                dead.append((l[0], l[3]))
        # ---- closures `|a, b| EXPR` get types and a contract that repeats the expression
        for spec in opts["closures"]:
            m = re.match(r"(.*?)->(.*?)\|(.*?)\|(.*)$", spec)
            tys = [x.strip() for x in re.findall(r"(?:[^,()]|\([^()]*\))+", m.group(1))]
            i = b
            while i < f["end"]:
                if not isdead(i) and toks[i].s == "|" and toks[i - 1].s in ("(", ",", "move"):
                    j = i + 1
                    while toks[j].s != "|": j += 1
                    ps = [[]]
                    for q in range(i + 1, j):
                        if toks[q].s == ",": ps.append([])
                        else: ps[-1].append(toks[q].s)
                    if any(":" in p_ for p_ in ps) or len(ps) != len(tys): i = j + 1; continue
                    nm = [p_[-1] if p_[-1] != "_" else "unused%d" % n for n, p_ in enumerate(ps)]
                    e, dd = j + 1, 0
                    while True:
                        if toks[e].s in OPEN: e = match_close(toks, e)
                        elif toks[e].s in (")", ",", "]", "}"): break
                        e += 1
                    body_ = s.text[toks[j + 1].a: toks[e - 1].b]
                    sub_ = lambda t: re.sub(r"\$(\d)", lambda q: nm[int(q.group(1)) - 1], t)
                    rep(toks[i].a, toks[e - 1].b, "|%s| -> (closure_r: %s) %s ensures closure_r == (%s) { %s %s }" % (
                        ", ".join("%s: %s" % x for x in zip(nm, tys)), m.group(2).strip(), sub_(m.group(3)).strip(), body_, sub_(m.group(4)).strip(), body_))
                    self.note("%s: closures got parameter types and a contract repeating their expression" % path)
                    dead.append((i, e - 1)); i = e
                else: i += 1
        # ---- closures with typed parameters and a written contract ($1, $2 .. are the parameters)
        for spec in opts["closurespec"]:
            rty, ctr, hint = (spec.split("%%") + ["", ""])[:3]
            i = b
            while i < f["end"]:
                if not isdead(i) and toks[i].s == "|" and toks[i - 1].s in ("(", ",", "move"):
                    j = i + 1
                    while toks[j].s != "|": j += 1
                    nm = [toks[q].s for q in range(i + 1, j) if toks[q].k == "id" and toks[q + 1].s == ":"]
                    sub_ = lambda t: re.sub(r"\$(\d)", lambda q: nm[int(q.group(1)) - 1], t)
                    e = j + 1
                    while True:
                        if toks[e].s in OPEN: e = match_close(toks, e)
                        elif toks[e].s in (")", ",", "]", "}"): break
                        e += 1
                    ins(toks[j].b, " -> (closure_r: %s) %s { %s" % (rty.strip(), sub_(ctr), sub_(hint)))
                    ins(toks[e - 1].b, " }", 9)
                    self.note("%s: closure got a contract" % path)
                    i = j
                i += 1
        # ---- the loops, numbered as they were when the contracts were written
        lps = [l for l in loops(toks, b, f["end"]) if not isdead(l[0])]
        shape = [" ".join([toks[l[0]].s] + [t.s for t in toks[l[0] + 1:(l[1] or l[0] + 1)] if t.k == "id" and t.s not in ("mut", "ref", "_")]) for l in lps]
        # the kind of loop, what it binds, whether it runs over numbers and which way
        shape = [x + (" .." if toks[l[0]].s == "for" and any(t.s in ("..", "..=") for t in toks[l[1]:l[2]]) else "") + (" rev" if toks[l[0]].s == "for" and any(t.s == "rev" for t in toks[l[1]:l[2]]) else "") for x, l in zip(shape, lps)]
        number = list(range(1, len(lps) + 1))
        lkey = "loops " + self.name + " " + key
        if not stub:
            self.cur_names[lkey] = shape
            old = [" ".join(ren.get(w, w) for w in x.split()) for x in (self.names or {}).get(lkey, shape)]
            if old != shape:
                def alike(a, c):
                    x, y = old[a].split(), shape[c].split()
                    return x[0] == y[0] and len(x) == len(y) and all((w in x) == (w in y) for w in ("..", "rev")) and (x == y or not (old[a] in shape and shape[c] in old))
                if len(old) == len(shape) and all(alike(n, n) for n in range(len(old))): pass
                else:
                    number = [1000 + n for n in number]
                    for op, a0, a1, b0, b1 in difflib.SequenceMatcher(None, old, shape, autojunk=False).get_opcodes():
                        if op == "equal" or (op == "replace" and a1 - a0 == b1 - b0 and len(old) == len(shape)):
                            for a, c in zip(range(a0, a1), range(b0, b1)):
                                if alike(a, c): number[c] = a + 1
                if max(number, default=0) >= 1000: self.report.setdefault("new_loops", []).append(path)
        # ---- `for (I, X) in E.enumerate()` and `.enumerate().take(N)`: the counter is written out
        for num, l in zip(number, lps):
            if toks[l[0]].s != "for": continue
            hd = [t.s for t in toks[l[1] + 1:l[2]]]
            at = [k for k in range(len(hd) - 3) if hd[k:k + 4] == [".", "enumerate", "(", ")"]]
            pt = [t.s for t in toks[l[0] + 1:l[1]]]
            if len(at) != 1 or len(pt) != 5 or pt[0] != "(" or pt[2] != ",": continue
            k = l[1] + 1 + at[0]
            rest = hd[at[0] + 4:]
            if rest and not (rest[:3] == [".", "take", "("] and match_close(toks, k + 6) == l[2] - 1): continue
            rep(toks[k].a, toks[k + 3].b, "")
            rep(toks[l[0] + 1].a, toks[l[1] - 1].b, pt[3])
            ins(toks[l[0]].a, "let mut enum%d: usize = 0;\n" % num, 3)
            ins(toks[l[2]].b, " let %s = enum%d; enum%d = enum%d + 1; " % (pt[1], num, num, num), -2)
            self.note("%s: the counter of .enumerate() written out" % path)
        # ---- for loops over the iterators named by #desugar: the iterator's `next` is called explicitly, as the language defines `for`
        plain = set()
        for num, l in zip(number, lps):
            if toks[l[0]].s != "for": continue
            ex_ = s.text[toks[l[1] + 1].a: toks[l[2] - 1].b]
            hd = " ".join(t.s for t in toks[l[1] + 1:l[2]])
            mi = re.match(r"(\w+) \. iter(_mut)? \( \)$", hd)
            if mi: hd = "& %s%s" % ("mut " if mi.group(2) else "", mi.group(1))  # by definition of IntoIterator
            pt = s.text[toks[l[0] + 1].a: toks[l[1] - 1].b]
            inlab = opts["labelled"] and any(toks[q[0] - 1].s == ":" and toks[q[0] - 2].k == "life" and q[0] <= l[0] < q[3] for q in loops(toks, b, f["end"]))
            if not inlab and not any(re.search(r, hd) for r in self.desugar): continue
            lab = l[0] - 2 if toks[l[0] - 1].s == ":" and toks[l[0] - 2].k == "life" else l[0]
            k, plain = num, plain | {l[0]}
            mp = re.match(r"\(\s*(\w+)\s*,\s*(\w+)\s*,\s*(\w+)\s*\)$", pt)
            mm = re.match(r"& mut (\w+)$", hd)
            mr = re.match(r"& (\w+)$", hd)
            mz = re.match(r"(\w+)\s*\.\s*zip\s*\(\s*(\w+)\s*\)\s*$", ex_)
            mp2 = re.match(r"\(\s*(\w+)\s*,\s*(\w+)\s*\)$", pt)
            ma = re.match(r"& \[", hd)
            mv = re.match(r"\(\s*([^()]*?)\.\.([^=()][^()]*)\)\s*\.\s*rev\s*\(\s*\)\s*$", ex_)
            if hd.endswith(". enumerate_pixels_mut ( )") and mp:
                img = ex_[:ex_.rindex(".")].strip()
                head, start = "loop", "let mut iter%d = %s.positions();\n" % (k, img)
                first = "let (%s, %s) = match iter%d.next() { Some(item) => item, None => break };" % (mp.group(1), mp.group(2), k)
                ins(toks[l[2]].b, " let %s = %s.get_pixel_mut(%s, %s); " % (mp.group(3), img, mp.group(1), mp.group(2)), 2)
                self.note("%s: `for (x, y, p) in IMG.enumerate_pixels_mut()` -> the same positions in the same order, `p = IMG.get_pixel_mut(x, y)`" % path)
            elif mm:
                head, start = "while iter%d < %s.len()" % (k, mm.group(1)), "let mut iter%d: usize = 0;\n" % k
                first = "let %s = &mut %s[iter%d]; iter%d += 1;" % (pt, mm.group(1), k, k)
                self.note("%s: `for x in &mut VEC` -> `while i < VEC.len() { let x = &mut VEC[i]; i += 1; .. }`" % path)
            elif mr:
                head, start = "while iter%d < %s.len()" % (k, mr.group(1)), "let mut iter%d: usize = 0;\n" % k
                first = "let %s = &%s[iter%d]; iter%d += 1;" % (pt, mr.group(1), k, k)
                self.note("%s: `for x in &VEC` -> `while i < VEC.len() { let x = &VEC[i]; i += 1; .. }`" % path)
            elif mz and mp2:
                head, start = "loop", "let mut iter%d = %s;\nlet mut second%d = %s;\n" % (k, mz.group(1), k, mz.group(2))
                first = "let %s = match iter%d.next() { Some(item) => item, None => break }; let %s = match second%d.next() { Some(item) => item, None => break };" % (mp2.group(1), k, mp2.group(2), k)
                self.note("%s: `for (x, y) in A.zip(B)` -> `loop { x = next of A or break; y = next of B or break; .. }`" % path)
            elif mv:
                head, start = "while iter%d > least%d" % (k, k), "let least%d = %s;\nlet mut iter%d = %s;\n" % (k, mv.group(1).strip(), k, mv.group(2).strip())
                first = "iter%d -= 1; let %s = iter%d;" % (k, pt, k)
                self.note("%s: `for x in (a..b).rev()` -> `let mut i = b; while i > a { i -= 1; let x = i; .. }`" % path)
            elif ma:
                head, start = "while iter%d < array%d.len()" % (k, k), "let array%d = %s;\nlet mut iter%d: usize = 0;\n" % (k, ex_.strip()[1:], k)
                first = "let %s = &array%d[iter%d]; iter%d += 1;" % (pt, k, k, k)
                self.note("%s: `for x in &[..]` -> `let a = [..]; while i < a.len() { let x = &a[i]; i += 1; .. }`" % path)
            else:
                head, start = "loop", "let mut iter%d = %s;\n" % (k, ex_)
                first = "let %s = match iter%d.next() { Some(item) => item, None => break };" % (pt, k)
                self.note("%s: `for P in E` -> `let mut i = E; loop { let P = match i.next() { Some(v) => v, None => break }; .. }`" % path)
            rep(toks[l[0]].a, toks[l[2] - 1].b, head + " ")
            ins(toks[lab].a, start, 3)
            ins(toks[l[2]].b, " " + first + " ", -2)
        # ---- `for .. { if C { A continue; } REST }`  ->  `for .. { if C { A } else { REST } }`, wherever the statement is the last thing the body does
        def own_continue(lo, hi):
            ls = [x for x in loops(toks, lo, hi)]
            return [q for q in range(lo, hi) if toks[q].s == "continue" and not isdead(q) and not any(x[0] <= q <= x[3] for x in ls)]
        def tail_block(lo, hi, found):
            st = [q for q in block_stmts(toks, lo, hi) if not isdead(q)]
            for n, q in enumerate(st):
                e = (st[n + 1] if n + 1 < len(st) else hi) - 1
                if not own_continue(q, e + 1): continue
                last = n + 1 == len(st)
                if toks[q].s == "continue":
                    if last and toks[q + 1].s != ":" and toks[q + 1].k != "life": rep(toks[q].a, toks[e].b, ""); found.append(q)
                    return
                if toks[q].s == "if":
                    chain, o = [], q
                    while True:
                        while toks[o].s != "{":
                            if toks[o].s in ("(", "["): o = match_close(toks, o)
                            o += 1
                        c = match_close(toks, o)
                        chain.append((o, c))
                        if toks[c + 1].s != "else": break
                        o = c + 2
                    if last:
                        for o, c in chain: tail_block(o + 1, c, found)
                        return
                    if len(chain) > 1: return
                    o, c = chain[0]
                    inner = block_stmts(toks, o + 1, c)
                    if not inner or toks[inner[-1]].s != "continue" or toks[inner[-1] + 1].k == "life": return
                    tail_block(o + 1, c, found)
                    ins(toks[c].b, " else {", -3)
                    ins(toks[hi].a, "}", -3)
                    found.append(q)
                elif toks[q].s == "match" and last:
                    o = q
                    while toks[o].s != "{":
                        if toks[o].s in ("(", "["): o = match_close(toks, o)
                        o += 1
                    x, c = o + 1, match_close(toks, o)
                    while x < c:
                        if toks[x].s == "=>":
                            if toks[x + 1].s == "{":
                                y = match_close(toks, x + 1)
                                tail_block(x + 2, y, found)
                                x = y
                            elif toks[x + 1].s == "continue" and toks[x + 2].k != "life": rep(toks[x + 1].a, toks[x + 1].b, "{}"); found.append(x)
                        elif toks[x].s in OPEN: x = match_close(toks, x)
                        x += 1
                    return
                elif toks[q].s == "let":
                    els = [x for x in range(q, e) if toks[x].s == "else" and toks[x + 1].s == "{" and match_close(toks, x + 1) == e - 1]
                    if last or len(els) != 1 or toks[e].s != ";": return
                    x, inner = els[0], block_stmts(toks, els[0] + 2, e - 1)
                    if not inner or toks[inner[-1]].s != "continue" or toks[inner[-1] + 1].k == "life": return
                    alt = s.text[toks[x + 2].a: toks[inner[-1]].a] if inner[-1] > x + 2 else ""
                    ins(toks[q].a, "if ", 2)
                    rep(toks[x].a, toks[e].b, "{")
                    ins(toks[hi].a, "} else { %s }" % alt, -3)
                    dead.append((x, e))
                    found.append(q)
                else: return
        for l in loops(toks, b, f["end"]):
            if toks[l[0]].s != "for" or isdead(l[0]) or l[0] in plain: continue
            found = []
            tail_block(l[2] + 1, l[3], found)
            if found: self.note("%s: `if C { A continue; } REST` in a for loop -> `if C { A } else { REST }`" % path)
        # ---- return value name
        if opts["ret"]:
            arrow = None
            j = f["kw"] + 2
            while j < b:
                if toks[j].s in ("(", "["): j = match_close(toks, j)
                if toks[j].s == "->": arrow = j
                if toks[j].s == "where": break
                j += 1
            if arrow is None: raise ExtractError("lost anchor: return type of %s" % path)
            ins(toks[arrow + 1].a, "(%s: " % opts["ret"], 5)
            ins(toks[j - 1].b, ")", 5)
        def lp(k):
            if k not in number: raise ExtractError("lost anchor: loop %d of %s" % (k, path))
            return lps[number.index(k)]
        def lpstart(l):
            q = l[0]
            if toks[q - 1].s == ":" and toks[q - 2].k == "life": q -= 2
            return q
        body_stmts = [q for q in block_stmts(toks, b + 1, f["end"]) if not isdead(q)]
        for d, arg, lines in secs:
            txt = rn("\n".join(lines))
            arg = rn(arg) if d in ("afterlet",) else arg
            if d == "spec": ins(toks[b].a, "\n" + txt + "\n")
            elif d == "entry": ins(toks[b].b, "\n" + txt + "\n")
            elif d == "exit": ins(toks[f["end"]].a, "\n" + txt + "\n")
            elif d == "beforetail":
                if not body_stmts: raise ExtractError("lost anchor: tail of %s" % path)
                ins(toks[body_stmts[-1]].a, "\n" + txt + "\n", 1)
            elif d == "loop":
                p = arg.split()
                l = lp(int(p[0]))
                if len(p) == 3 and p[1] == "it":
                    if l[1] is None: raise ExtractError("lost anchor: for loop %s of %s" % (p[0], path))
                    ins(toks[l[1]].b, " %s: " % p[2])
                ins(toks[l[2]].a, "\n" + txt + "\n")
            elif d == "loopstart": ins(toks[lp(int(arg))[2]].b, "\n" + txt + "\n")
            elif d == "loopend": ins(toks[lp(int(arg))[3]].a, "\n" + txt + "\n")
            elif d == "beforeloop": ins(toks[lpstart(lp(int(arg)))].a, "\n" + txt + "\n")
            elif d == "afterloop": ins(toks[lp(int(arg))[3]].b, "\n" + txt + "\n")
            elif d == "afterlet":
                p = arg.split()
                k = int(p[1]) if len(p) > 1 else 1
                c = [q for q in range(b, f["end"]) if toks[q].s == "let" and not isdead(q) and
                     (toks[q + 1].s == p[0] or (toks[q + 1].s == "mut" and toks[q + 2].s == p[0]))]
                if len(c) < k: raise ExtractError("lost anchor: let %s in %s" % (p[0], path))
                ins(toks[stmt_end(toks, c[k - 1], f["end"])].b, "\n" + txt + "\n")
            elif d in ("after", "before", "afterblock"):
                m = re.match(r'"(.*)"\s*(\d+)?$', arg)
                pat = [t.s for t in lex(rn(m.group(1)))]
                k = int(m.group(2) or 1)
                c = [q for q in seq_find(toks, pat, b, f["end"]) if not isdead(q)]
                if len(c) < k: raise ExtractError("lost anchor: `%s` in %s" % (m.group(1), path))
                q = c[k - 1]
                if d == "before": ins(toks[q].a, "\n" + txt + "\n", 1)
                elif d == "after": ins(toks[stmt_end(toks, q, f["end"])].b, "\n" + txt + "\n")
                else:
                    while toks[q].s != "{": q += 1
                    ins(toks[match_close(toks, q)].b, "\n" + txt + "\n")
            else: raise SystemExit("unknown annotation @%s" % d)
        # ---- vacuity canaries: `false` must be refused at the entry of the body and of every loop
        if self.canary and not any("external_body" in a for a in opts["attr"]):
            spots = [(toks[b].b, "%s@entry" % path)] + [(toks[l[2]].b, "%s@loop%d" % (path, n + 1)) for n, l in enumerate(lps)]
            nospot = [x.split()[0] for x in opts["nocanary"]]
            for pos_, nm in spots:
                nm = (impl[1].replace(" ", "_") + "::" if impl else "") + nm
                if nm.split("@")[1] in nospot: continue
                ins(pos_, "\nproof { if canary_at(%d) { assert(false); } } /*canary %s*/\n" % (len(self.report["canaries"]), nm), -1)
                self.report["canaries"].append(nm)
        # ---- assemble
        a0, b0 = toks[f["kw"]].a, toks[f["end"]].b
        edits.sort(key=lambda e: (e[0], e[2] > e[0], e[1]))
        res, pos = [], a0
        # drop edits that lie inside a replaced region
        regions = [(a, b2) for a, _, b2, _ in edits if b2 > a]
        for a, prio, b2, txt in edits:
            if any(ra < a < rb or (ra < a and b2 < rb) for ra, rb in regions if (ra, rb) != (a, b2)): continue
            if a < pos: continue
            res.append(s.text[pos:a]); res.append(txt); pos = b2
        res.append(s.text[pos:b0])
        txt = "".join(res)
        head = "\n".join(opts["attr"])
        vis = "pub " if not (impl and " for " in impl[1]) else ""
        ty = path.split("::")[0] if ("::" in path and not impl) else None
        self.out.append("// ---- %s (%s)" % (path, rel))
        if ty:
            im = [x for x in s.find_impl(ty) if x["body"] < f["kw"] < x["end"]][0]
            self.out.append(s.text[toks[im["kw"]].a: toks[im["body"]].a] + "{")
        self.out.append((head + "\n" if head else "") + vis + txt)
        if ty: self.out.append("}")
        if stub: self.report["relied"].append([stub[0], path])
        else: self.report["functions"].append(key)

    def render(self):
        body = "\n".join(self.out)
        for m in re.finditer(r"#\[verifier::external_body\]|assume_specification|external_type_specification|\badmit\(\)|\bassume\(|\buninterp\b|\baxiom\b", body):
            if body[m.end():m.end() + 26] == " /*contract proved in unit": continue
            ln = body.count("\n", 0, m.start())
            ctx = " ".join(x.strip() for x in body.split("\n")[ln:ln + 3])
            self.report["trusted"].append(ctx[:160])
        return ("#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, non_snake_case, unused_braces, unused_assignments, unused_must_use, non_upper_case_globals)]\n"
                "use vstd::prelude::*;\n" + ("verus! { pub uninterp spec fn canary_at(k: int) -> bool; }\n" if self.canary else "") + body
                + ("\nverus! {\n// whether the logger wants a message\n#[verifier::external_body]\nfn log_on() -> (r: bool) { true }\n}" if self.log_used else "") + "\nfn main() {}\n")

def known_functions(cdir):
    return json.load(open(os.path.join(cdir, "functions.json")))

def extract(root, cdir, name, names=None, canary=False):
    u = Unit(root, cdir, name, names, canary)
    txt = u.render()
    u.report["files"] = sorted(u.report["files"])
    return txt, u.report, u.cur_names

if __name__ == "__main__":
    root = os.environ.get("VERIF_REPO", "/repo")
    cdir = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "contracts")
    nf = os.path.join(cdir, "names.json")
    names = json.load(open(nf)) if os.path.exists(nf) else {}
    if sys.argv[1] == "--functions":
        import inline
        out = {}
        for d, _, fs in os.walk(os.path.join(root, "src")):
            for f in fs:
                if f.endswith(".rs"):
                    r = os.path.relpath(os.path.join(d, f), root)
                    out[r] = sorted(set(x["name"] for x, _ in inline.fns(Src(root, r))))
        json.dump(out, open(os.path.join(cdir, "functions.json"), "w"), indent=1, sort_keys=True)
    elif sys.argv[1] == "--record":
        for n in sys.argv[2:]:
            _, _, cn = extract(root, cdir, n)
            names.update(cn)
        json.dump(names, open(nf, "w"), indent=1, sort_keys=True)
    else:
        txt, rep, _ = extract(root, cdir, sys.argv[1], names)
        open(sys.argv[2], "w").write(txt)
        json.dump(rep, sys.stderr, indent=1)
