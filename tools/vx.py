#!/usr/bin/env python3
"""Mechanical extraction of /repo/src into Verus, carrying the contracts of /verif/contracts over.

See DESIGN.md ("Extraction") for the full list of what is dropped or rewritten.
"""
import re, sys, os, difflib, json, hashlib

REPO = os.environ.get("VX_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(HERE, "contracts")

# --- lexer -------------------------------------------------------------------

PUNCT = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=",
         "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<", ">>", ".."]


class Tok:
    __slots__ = ("t", "ws", "line", "kind", "repl", "orig")

    def __init__(self, t, ws="", line=0, kind="t", repl=None, orig=None):
        self.t, self.ws, self.line, self.kind, self.repl, self.orig = t, ws, line, kind, repl, orig

    def __repr__(self):
        return self.t


IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0[xX][0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|0b[01_]+(?:[ui](?:8|16|32|64|128|size))?|"
                 r"[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?(?:[uif](?:8|16|32|64|128|size))?")


class LexError(Exception):
    pass


def lex(s, annotated=False):
    """Tokens of Rust source text; with `annotated`, ghost fragments (kind 'g') and substitutions
    (kinds 'S' start / 'E' end with .repl) appear as extra tokens."""
    out, i, n, line, ws = [], 0, len(s), 1, ""
    while i < n:
        c = s[i]
        if c in " \t\r\n":
            j = i
            while j < n and s[j] in " \t\r\n":
                j += 1
            ws += s[i:j]
            line += s.count("\n", i, j)
            i = j
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            if annotated and s.startswith("//@", i):
                out.append(Tok(s[i + 3:j], ws, line, "g"))
                ws = ""
            i = j
            continue
        if s.startswith("/*", i):
            depth, j = 1, i + 2
            if annotated and s.startswith("/*@", i):
                j = s.index("@*/", i)
                out.append(Tok(s[i + 3:j], ws, line, "g"))
                line += s.count("\n", i, j)
                ws, i = "", j + 3
                continue
            if annotated and s.startswith("/*-{*/", i):
                out.append(Tok("", ws, line, "S"))
                ws, i = "", i + 6
                continue
            if annotated and s.startswith("/*-}{", i):
                j = s.index("}*/", i)
                out.append(Tok("", ws, line, "E", repl=s[i + 5:j]))
                line += s.count("\n", i, j)
                ws, i = "", j + 3
                continue
            while depth:
                a, b = s.find("/*", j), s.find("*/", j)
                if b < 0:
                    raise LexError("unterminated comment")
                if 0 <= a < b:
                    depth += 1
                    j = a + 2
                else:
                    depth -= 1
                    j = b + 2
            line += s.count("\n", i, j)
            i = j
            ws += " "
            continue
        st = i
        m = re.compile(r'b?r(#*)"').match(s, i)
        if m:
            j = s.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
        elif c == '"' or s.startswith('b"', i):
            j = i + (2 if c == "b" else 1)
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            j += 1
        elif c == "'" or s.startswith("b'", i):
            k = i + (2 if c == "b" else 1)
            m = re.compile(r"(\\x[0-9a-fA-F]{2}|\\u\{[^}]*\}|\\.|[^\\'])'", re.S).match(s, k)
            if m:
                j = m.end()
            else:
                m = IDENT.match(s, k)
                j = m.end()
        elif c.isalpha() or c == "_":
            j = IDENT.match(s, i).end()
        elif c.isdigit():
            j = NUM.match(s, i).end()
            # `0..n` is not a float
        else:
            for p in PUNCT:
                if s.startswith(p, i):
                    j = i + len(p)
                    break
            else:
                j = i + 1
        out.append(Tok(s[st:j], ws, line))
        line += s.count("\n", st, j)
        ws, i = "", j
    return out


ITEM_KW = {"fn", "struct", "enum", "impl", "const", "static", "use", "mod", "type", "trait", "extern", "macro_rules"}
MODS = {"pub", "unsafe", "async", "default"}
OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match_close(toks, i):
    d = 0
    while i < len(toks):
        if toks[i].kind == "t":
            if toks[i].t in OPEN:
                d += 1
            elif toks[i].t in CLOSE:
                d -= 1
                if d == 0:
                    return i
        i += 1
    raise LexError("unbalanced")


def parse(text, ws=" "):
    r = lex(text)
    if r:
        r[0].ws = ws
    return r


# --- mechanical rewriting of the current source ------------------------------

def cfg_eval(toks):
    """Evaluate a cfg predicate (token list): 64-bit, debug assertions on, feature gzip on."""
    s = "".join(t.t for t in toks)
    if s.startswith("not("):
        return not cfg_eval(toks[2:-1])
    for k in ("any", "all"):
        if s.startswith(k + "("):
            parts, cur, d = [], [], 0
            for t in toks[2:-1]:
                d += t.t in OPEN
                d -= t.t in CLOSE
                if t.t == "," and d == 0:
                    parts.append(cur)
                    cur = []
                else:
                    cur.append(t)
            if cur:
                parts.append(cur)
            return (any if k == "any" else all)(cfg_eval(p) for p in parts)
    return s in ('debug_assertions', 'target_pointer_width="64"', 'feature="gzip"', 'target_endian="little"')


def element_end(toks, i):
    """End (exclusive) of the item/field/statement starting at i (attributes already skipped)."""
    k = i
    while k < len(toks) and (toks[k].t in MODS or toks[k].t == "const" and toks[k + 1].t == "fn"):
        k += 1
        if toks[k].t == "(" and toks[k + 1].t in ("crate", "super", "self", "in"):
            k = match_close(toks, k) + 1
    kw = toks[k].t if k < len(toks) else ""
    is_item = kw in ITEM_KW
    while i < len(toks):
        t = toks[i].t
        if t in OPEN:
            e = match_close(toks, i)
            if t == "{" and kw not in ("use", "const", "static"):
                return e + 1
            i = e + 1
            continue
        if t == ";" or t == "," and not is_item:
            return i + 1
        if t in CLOSE:
            return i
        i += 1
    return i


DERIVE_KEEP = {"Clone", "Copy", "PartialEq", "Eq"}


def enum_without_fields(toks, i):
    while i < len(toks) and toks[i].t != "{":
        if toks[i].t in ("struct", "fn", ";"):
            return False
        i = match_close(toks, i) + 1 if toks[i].t == "[" else i + 1
    return i < len(toks) and not any(x.t in "({" for x in toks[i + 1:match_close(toks, i)])


def strip(toks):
    """Drop attributes, elements whose cfg is false, Debug/Display code."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "#" and i + 1 < len(toks) and toks[i + 1].t in ("[", "!"):
            inner = toks[i + 1].t == "!"
            b = i + (2 if inner else 1)
            e = match_close(toks, b)
            name = toks[b + 1].t
            if name == "cfg" and not inner:
                val = cfg_eval(toks[b + 3:e - 1])
                i = e + 1
                if not val:
                    while i < len(toks) and toks[i].t == "#" and toks[i + 1].t == "[":
                        i = match_close(toks, i + 1) + 1
                    i = element_end(toks, i)
                continue
            if name == "derive":
                names = [x.t for x in toks[b + 3:e - 1] if x.t != "," and x.t in DERIVE_KEEP]
                fieldless = enum_without_fields(toks, e + 1)
                nested = sum((x.t == "{") - (x.t == "}") for x in out) > 0
                if "PartialEq" in names and ("Eq" in names or fieldless) and not nested:
                    names = sorted(set(names) | {"Eq", "Structural"})
                else:
                    names = [x for x in names if x not in ("PartialEq", "Eq")]
                if names:
                    out += parse("#[derive(" + ", ".join(sorted(names)) + ")]", t.ws)
            i = e + 1
            continue
        if t.t in ("extern", "mod", "pub") and sum((x.t == "{") - (x.t == "}") for x in out) == 0:
            # `extern crate x;` and `mod x;`: the crate's make-up, which the emitted text has of its own
            k = i + (t.t == "pub")
            if toks[k].t == "extern" and toks[k + 1].t == "crate" or toks[k].t == "mod" and toks[k + 2].t == ";":
                while toks[i].t != ";":
                    i += 1
                i += 1
                continue
        if t.t == "impl":
            # impl fmt::Debug / Display / Default for …: formatting code is dropped
            j = i
            hdr = []
            while toks[j].t != "{":
                hdr.append(toks[j].t)
                j += 1
            h = " ".join(hdr)
            if re.search(r"fmt :: (Debug|Display)", h):
                # formatting code
                i = match_close(toks, j) + 1
                continue
        out.append(t)
        i += 1
    return out


def crate_macros():
    """The macro_rules! macros of all modules (textual scope is not modelled: names are unique in the crate)."""
    m = {}
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        if f.endswith(".rs"):
            src = open(os.path.join(REPO, "src", f)).read()
            if "macro_rules!" in src:
                expand_macros(strip(lex(src)), {}, m)
    return m


def expand_macros(toks, known=None, collect=None):
    """Expand the crate's own single-arm macro_rules! macros; returns tokens without definitions."""
    macros, out, i = dict(known or {}), [], 0
    while i < len(toks):
        t = toks[i]
        if t.t == "macro_rules" and toks[i + 1].t == "!":
            name = toks[i + 2].t
            e = match_close(toks, i + 3)
            b = toks[i + 4:e]
            pe = match_close(b, 0)
            pat = b[1:pe]
            assert b[pe + 1].t == "=>"
            be = match_close(b, pe + 2)
            body = b[pe + 3:be]
            if [x for x in b[be + 1:] if x.t != ";"]:
                raise LexError("macro with more than one rule: " + name)
            params = [pat[k + 1].t for k in range(len(pat)) if pat[k].t == "$"]
            macros[name] = (params, body)
            if collect is not None:
                collect[name] = (params, body)
            i = e + 1
            if i < len(toks) and toks[i].t == ";":
                i += 1
            continue
        out.append(t)
        i += 1
    if collect is not None:
        return out
    res, i = [], 0
    while i < len(out):
        t = out[i]
        if t.t in macros and i + 1 < len(out) and out[i + 1].t == "!":
            params, body = macros[t.t]
            e = match_close(out, i + 2)
            args, cur, d = [], [], 0
            for x in out[i + 3:e]:
                d += x.t in OPEN
                d -= x.t in CLOSE
                if x.t == "," and d == 0:
                    args.append(cur)
                    cur = []
                else:
                    cur.append(x)
            args.append(cur)
            if len(args) != len(params):
                raise LexError("macro arguments " + t.t)
            m = dict(zip(params, args))
            k, exp = 0, []
            while k < len(body):
                if body[k].t == "$":
                    a = m[body[k + 1].t]
                    a = [Tok(x.t, x.ws, t.line) for x in a]
                    par = len(a) > 1
                    if par:
                        exp.append(Tok("(", body[k].ws, t.line))
                        a[0].ws = ""
                    else:
                        a[0].ws = body[k].ws
                    exp += a
                    if par:
                        exp.append(Tok(")", "", t.line))
                    k += 2
                else:
                    exp.append(Tok(body[k].t, body[k].ws, t.line))
                    k += 1
            stmt = any(x.t == ";" for x in exp)
            if exp:
                exp[0].ws = t.ws
            if stmt:
                # the expansion is a list of statements; it replaces `m!(..);` whole
                res.append(Tok("{", t.ws, t.line))
                res += exp
                res.append(Tok("}", t.ws, t.line))
                i = e + 1
                if i < len(out) and out[i].t == ";":
                    i += 1
            else:
                res += exp
                i = e + 1
            continue
        res.append(t)
        i += 1
    return res


def split_args(toks):
    args, cur, d = [], [], 0
    for x in toks:
        d += x.t in OPEN
        d -= x.t in CLOSE
        if x.t == "," and d == 0:
            args.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        args.append(cur)
    return args


def place_start(out):
    """Where the place expression (x.y[i].z) that ends `out` begins."""
    j = len(out)
    while j > 0:
        x = out[j - 1]
        if x.t == "]":
            d = 0
            while True:
                j -= 1
                d += out[j].t == "]"
                d -= out[j].t == "["
                if d == 0:
                    break
        elif IDENT.fullmatch(x.t) and x.t not in ("in", "return", "let", "mut") or x.t == ".":
            j -= 1
        else:
            break
    return j


def chain(toks, i, out):
    """E.iter() followed by adapters:
    ...enumerate() -> (0..E.len()).zip(...);  ....fold(A, |acc, P| B) and ....take_while(|P| B).count() -> a block with the explicit loop."""
    j = place_start(out)
    if j == len(out):
        return None
    links, k = [], i
    while k + 2 < len(toks) and toks[k].t == "." and IDENT.fullmatch(toks[k + 1].t) and toks[k + 2].t == "(":
        e = match_close(toks, k + 2)
        links.append((toks[k + 1].t, toks[k + 3:e], e + 1))
        k = e + 1
    names = [l[0] for l in links]
    n = 1
    while n < len(names) and names[n] in ("zip", "rev", "skip", "take"):
        n += 1
    E, ws, line = show(out[j:]).strip(), out[j].ws, toks[i].line
    it = E + "".join(".%s(%s)" % (l[0], show(rewrite(l[1])).strip()) for l in links[:n])
    if n < len(names) and names[n] == "enumerate" and n > 1:
        it = "(0..%s.len()).zip(%s)" % (E, it)
        n += 1
    elif n < len(names) and names[n:n + 2] != ["take_while", "count"] and names[n] != "fold":
        return None
    body = lambda b: show(b[1:-1] if b and b[0].t == "{" and match_close(b, 0) == len(b) - 1 and not any(x.t in (";", "let") for x in b) else b).strip()

    def binders(pat):
        # tuple patterns with `&x` -> by-reference binders and the lets that undo them
        txt, lets, q = "", "", 0
        while q < len(pat):
            if pat[q].t == "&" and q + 1 < len(pat) and IDENT.fullmatch(pat[q + 1].t):
                v = pat[q + 1].t
                txt += " __" + v
                lets += "let %s = *__%s; " % (v, v)
                q += 2
                continue
            txt += (" " if IDENT.fullmatch(pat[q].t) else "") + pat[q].t
            q += 1
        return txt.strip(), lets
    tpl = None
    if names[n:n + 1] == ["fold"]:
        init, clo = split_args(links[n][1])[0], links[n][1]
        b = next((q for q in range(len(clo)) if clo[q].t == "|"), None)
        b2 = b is not None and next((q for q in range(b + 1, len(clo)) if clo[q].t == "|"), None)
        if not b2 or clo[b + 2].t != "," or any(x.t in ("return", "?") for x in clo[b2:]):
            return None
        pat, lets = binders(clo[b + 3:b2])
        tpl = "({ let mut %s = %s; for %s in %s { %s %s = %s; } %s })" % (clo[b + 1].t, show(init).strip(), pat, it, lets, clo[b + 1].t, body(rewrite(clo[b2 + 1:])), clo[b + 1].t)
        n += 1
    elif names[n:n + 2] == ["take_while", "count"]:
        clo = links[n][1]
        b2 = next((q for q in range(1, len(clo)) if clo[q].t == "|"), None)
        pat = "".join(x.t for x in clo[1:b2]) if b2 else ""
        m = re.fullmatch(r"(&{1,2})(\w+)", pat)
        if not m or any(x.t in ("return", "?") for x in clo[b2:]):
            return None
        tpl = "({ let mut __c = 0usize; for __a in %s { let %s = %s__a; if !(%s) { break; } __c += 1; } __c })" % (it, m.group(2), "*" if len(m.group(1)) == 2 else "", body(rewrite(clo[b2 + 1:])))
        n += 2
    elif it.startswith("(0.."):
        tpl = it
    if tpl is None:
        return None
    new = parse(tpl, ws)
    for x in new:
        x.line = line
    return links[n - 1][2], out[:j] + new


def rewrite(toks):
    """Assertion macros -> explicit tests with an unreachable panic; cfg!(); std::io -> io shim."""
    out, i = [], 0
    while i < len(toks):
        t = toks[i]
        nx = toks[i + 1].t if i + 1 < len(toks) else ""
        if nx == "!" and i + 2 < len(toks) and toks[i + 2].t in OPEN:
            e = match_close(toks, i + 2)
            body = toks[i + 3:e]
            if t.t in ("debug_assert", "assert", "debug_assert_eq", "assert_eq", "debug_assert_ne", "assert_ne"):
                args = split_args(rewrite(body))
                if t.t.endswith("assert"):
                    cond = args[0]
                else:
                    op = "==" if t.t.endswith("_eq") else "!="
                    cond = args[0] + [Tok(op, " ", t.line)] + args[1]
                new = parse("if !(", t.ws) + [Tok(x.t, x.ws, t.line) for x in cond] + parse(") { crate::vx::panic(); }", "")
                for x in new:
                    x.line = t.line
                out += new
                i = e + 1
                if i < len(toks) and toks[i].t == ";":
                    i += 1
                continue
            if t.t in ("panic", "unreachable", "unimplemented", "todo"):
                new = parse("crate::vx::panic()", t.ws)
                for x in new:
                    x.line = t.line
                out += new
                i = e + 1
                continue
            if t.t == "cfg":
                out.append(Tok("true" if cfg_eval(body) else "false", t.ws, t.line))
                i = e + 1
                continue
        if t.t == "for" or (t.t == "let" and out and out[-1].t in ("while", "if")):
            # reference patterns: `for &x in e {` -> `for __x in e { let x = *__x;`
            stop = "in" if t.t == "for" else "="
            j, d, pat, lets = i + 1, 0, [], []
            while j < len(toks) and not (d == 0 and toks[j].t in (stop, "{", ";")):
                d += toks[j].t in OPEN
                d -= toks[j].t in CLOSE
                if toks[j].t == "&" and IDENT.fullmatch(toks[j + 1].t) and toks[j + 1].t not in ("mut", "ref"):
                    v = toks[j + 1].t
                    lets.append(v)
                    pat.append(Tok("__" + v, toks[j].ws, t.line))
                    j += 2
                    continue
                pat.append(toks[j])
                j += 1
            if lets and j < len(toks) and toks[j].t == stop:
                # body brace
                k, d = j + 1, 0
                while not (d == 0 and toks[k].t == "{"):
                    d += toks[k].t in ("(", "[")
                    d -= toks[k].t in (")", "]")
                    k += 1
                out += [t] + pat + rewrite(toks[j:k]) + [toks[k]]
                for v in lets:
                    new = parse("let %s = *__%s;" % (v, v), " ")
                    for x in new:
                        x.line = t.line
                    out += new
                i = k + 1
                continue
        if t.t == "static" and nx != "mut" and nx != "":
            out.append(Tok("const", t.ws, t.line))
            i += 1
            continue
        if t.t == "." and [x.t for x in toks[i:i + 8]] == [".", "iter", "(", ")", ".", "enumerate", "(", ")"]:
            # E.iter().enumerate() -> (0..E.len()).zip(E.iter());  let mut v = E.iter().enumerate(); -> shim
            j = place_start(out)
            e = out[j:]
            if e:
                txt = show(e).strip()
                tpl = "(0..%s.len()).zip(%s.iter())" % (txt, txt)
                if i + 8 < len(toks) and toks[i + 8].t == ";" and j > 3 and [x.t for x in out[j - 4:j - 2]] == ["let", "mut"] and out[j - 1].t == "=":
                    tpl = "crate::vx::EnumIter::new(%s)" % txt
                new = parse(tpl, e[0].ws)
                for x in new:
                    x.line = t.line
                out = out[:j] + new
                i += 8
                continue
        if t.t == "." and [x.t for x in toks[i:i + 4]] == [".", "iter", "(", ")"]:
            new = chain(toks, i, out)
            if new:
                i, out = new
                continue
        if t.t == "." and [x.t for x in toks[i:i + 3]] == [".", "extend", "("]:
            # V.extend(E.iter().enumerate().filter_map(|(n, f)| BODY));  ->  an explicit loop over E, BODY kept
            e = match_close(toks, i + 2)
            arg = toks[i + 3:e]
            k = next((q for q in range(len(arg)) if [x.t for x in arg[q:q + 10]] == [".", "iter", "(", ")", ".", "enumerate", "(", ")", ".", "filter_map"]), None)
            j = place_start(out)
            if k and j < len(out) and match_close(arg, k + 10) == len(arg) - 1 and [arg[k + 11 + q].t for q in (0, 1, 3, 5, 6)] == ["|", "(", ",", ")", "|"] \
                    and not any(x.t in ("return", "?") for x in arg[k + 18:-1]):
                E, V = show(arg[:k]).strip(), show(out[j:]).strip()
                nm, f, body = arg[k + 13].t, arg[k + 15].t, rewrite(arg[k + 18:-1])
                new = parse("for __k in 0..%s.len() { let %s = __k; let %s = &%s[__k]; let __o =" % (E, nm, f, E), out[j].ws) + body + \
                    parse("; if let Some(__x) = __o { %s.push(__x); } }" % V)
                for x in new:
                    x.line = t.line
                out = out[:j] + new
                i = e + 1
                if i < len(toks) and toks[i].t == ";":
                    i += 1
                continue
        if t.t == "." and [x.t for x in toks[i:i + 5]] == [".", "sort_by", "(", "|"] + [toks[i + 4].t if i + 4 < len(toks) else ""]:
            # V.sort_by(|a, b| BODY) -> shim with the same closure
            e = match_close(toks, i + 2)
            j = place_start(out)
            bar = next((q for q in range(i + 4, e) if toks[q].t == "|"), None)
            if bar and j < len(out):
                V = out[j:]
                ws = V[0].ws
                V[0].ws = " "
                body = rewrite(toks[bar + 1:e])
                if body[0].t != "{":
                    body = parse("{") + body + parse("}")
                new = parse("crate::vx::sort_by(&mut", ws) + V + parse(", ") + toks[i + 3:bar + 1] + body + parse(")", "")
                for x in new:
                    x.line = t.line
                out = out[:j] + new
                i = e + 1
                continue
        if t.t == "." and [x.t for x in toks[i:i + 7]] == [".", "iter", "(", ")", ".", "chain", "("]:
            # E.iter().chain(F) -> a chain of two slices
            j = place_start(out)
            e = match_close(toks, i + 6)
            if j < len(out):
                ws = out[j].ws
                E = out[j:]
                E[0].ws = ""
                new = parse("crate::vx::Chain2::new(&", ws) + E + parse(", ") + rewrite(toks[i + 7:e]) + parse(")", "")
                for x in new:
                    x.line = t.line
                out = out[:j] + new
                i = e + 1
                continue
        if t.t in ("min", "max") and nx == "(" and len(out) >= 2 and out[-1].t == "::" and out[-2].t == "cmp":
            # cmp::min(a, b) / cmp::max(a, b) on integers, spelled out
            e = match_close(toks, i + 1)
            args = split_args(rewrite(toks[i + 2:e]))
            if len(args) == 2:
                while out and (out[-1].t == "::" or out[-1].t in ("cmp", "std", "core")):
                    ws = out.pop().ws
                new = parse("({ let __a =", ws) + args[0] + parse("; let __b =") + args[1] + \
                    parse("; if __b %s __a { __b } else { __a } })" % ("<" if t.t == "min" else ">="))
                for x in new:
                    x.line = t.line
                out += new
                i = e + 1
                continue
        if t.t == "for":
            new = for_iter_mut(toks, i)
            if new:
                e, new = new
                out += rewrite(new)
                i = e
                continue
        if t.t in ("==", "!=") and out and out[-1].t == "]":
            # comparison of two sub-slices
            a = len(out) - 1
            d = 0
            while True:
                d += out[a].t in CLOSE
                d -= out[a].t in OPEN
                if d == 0:
                    break
                a -= 1
            j = i + 1
            while j < len(toks) and (IDENT.fullmatch(toks[j].t) or toks[j].t == "."):
                j += 1
            rng = lambda b: [k for k, x in enumerate(b) if x.t in ("..", "..=")]
            if j < len(toks) and toks[j].t == "[" and j > i + 1:
                e = match_close(toks, j)
                b = a
                while b > 0 and (IDENT.fullmatch(out[b - 1].t) and out[b - 1].t not in KEYWORDS or out[b - 1].t == "."):
                    b -= 1
                L, R = out[a + 1:-1], rewrite(toks[j + 1:e])
                if len(rng(L)) == 1 and len(rng(R)) == 1 and b < a:
                    def half(base, r):
                        k = rng(r)[0]
                        x, y = show(r[:k]).strip() or "0", show(r[k + 1:]).strip() or base + ".len()"
                        return "&%s, %s, %s" % (base, x, y + (" + 1" if r[k].t == "..=" else ""))
                    txt = "crate::vx::range_eq(%s, %s)" % (half(show(out[b:a]).strip(), L), half(show(toks[i + 1:j]).strip(), R))
                    new = parse(("!" if t.t == "!=" else "") + txt, out[b].ws)
                    for x in new:
                        x.line = t.line
                    out = out[:b] + new
                    i = e + 1
                    continue
        if t.t == "Box" and [x.t for x in toks[i:i + 5]] == ["Box", "::", "default", "(", ")"]:
            out += parse("crate::vx::box_default()", t.ws)
            i += 5
            continue
        if t.t == "_" and nx == ":" and out and out[-1].t in ("(", ","):
            out.append(Tok("__arg", t.ws, t.line))
            i += 1
            continue
        if t.t in ("to_le_bytes", "to_be_bytes") and out and out[-1].t == ".":
            out.append(Tok("vx_" + t.t, t.ws, t.line))
            i += 1
            continue
        if t.t in ("adler32", "gzip_header") and nx == "::" and (not out or out[-1].t not in ("::", ".")):
            out += parse("crate::vx::" + t.t, t.ws)
            i += 1
            continue
        if t.t == "std" and nx == "::" and i + 2 < len(toks) and toks[i + 2].t == "io":
            out += parse("crate::vx", t.ws)
            i += 1
            continue
        out.append(t)
        i += 1
    return out


KEYWORDS = {"if", "while", "return", "in", "let", "match", "mut", "else"}


def for_iter_mut(toks, i):
    """`for (n, b) in E.iter_mut().enumerate() { .. *b .. }` -> `for n in 0..E.len() { .. E[n] .. }` (E a place)."""
    j, pat = i + 1, []
    while j < len(toks) and toks[j].t != "in" and j < i + 8:
        pat.append(toks[j].t)
        j += 1
    if j >= len(toks) or toks[j].t != "in":
        return None
    k = j + 1
    while k < len(toks) and (IDENT.fullmatch(toks[k].t) or toks[k].t == ".") and [x.t for x in toks[k:k + 4]] != [".", "iter_mut", "(", ")"]:
        k += 1
    if [x.t for x in toks[k:k + 4]] != [".", "iter_mut", "(", ")"]:
        return None
    place = show(toks[j + 1:k]).strip()
    k += 4
    if [x.t for x in toks[k:k + 4]] == [".", "enumerate", "(", ")"]:
        if len(pat) != 5 or pat[0] != "(" or pat[2] != ",":
            return None
        n, b = pat[1], pat[3]
        k += 4
    else:
        if len(pat) != 1:
            return None
        n, b = "__n", pat[0]
    if toks[k].t != "{":
        return None
    e = match_close(toks, k)
    body = parse("for %s in 0..%s.len()" % (n if n != "_" else "__n", place), toks[i].ws)
    for x in body:
        x.line = toks[i].line
    x = k
    while x <= e:
        t = toks[x]
        if t.t == "*" and toks[x + 1].t == b and (toks[x - 1].t in PUNCT or toks[x - 1].t in ("{", ";", "(", ",", "=", "}") or toks[x - 1].t in KEYWORDS):
            new = parse("%s[%s]" % (place, n if n != "_" else "__n"), t.ws)
            for y in new:
                y.line = t.line
            body += new
            x += 2
            continue
        if t.t == b and toks[x - 1].t != ".":
            return None
        body.append(t)
        x += 1
    return e + 1, body


def const_arrays(toks):
    """`const X: [T; N] = [lit; N];` -> explicit list (N an expression over integer consts of the module)."""
    env, out, i = {}, [], 0
    while i < len(toks):
        if toks[i].t == "const" and i + 2 < len(toks) and toks[i + 2].t == ":":
            e = element_end(toks, i)
            span = toks[i:e]
            eq = next((k for k, x in enumerate(span) if x.t == "="), None)
            if eq is not None:
                val = span[eq + 1:-1]
                expr = " ".join(x.t for x in val)
                if re.fullmatch(r"[0-9A-Za-z_ +*()-]+", expr):
                    try:
                        env[span[1].t] = int(eval(re.sub(r" as (usize|u8|u16|u32|u64)", "", expr), {}, dict(env)))
                    except Exception:
                        pass
                if val and val[0].t == "[" and match_close(val, 0) == len(val) - 1:
                    semi = [k for k, x in enumerate(val) if x.t == ";"]
                    if len(semi) == 1:
                        try:
                            n = int(eval(" ".join(x.t for x in val[semi[0] + 1:-1]), {}, dict(env)))
                            lit = show(val[1:semi[0]]).strip()
                            new = parse("[" + ", ".join([lit] * n) + "]")
                            for x in new:
                                x.line = span[0].line
                            span = span[:eq + 1] + new + [span[-1]]
                        except Exception:
                            pass
            out += span
            i = e
            continue
        out.append(toks[i])
        i += 1
    return out


def publicize(toks):
    """Everything is made `pub`: visibility plays no role in the proof."""
    def go(toks, in_trait):
        out = []
        for it in items(toks)[0]:
            if it.children is not None:
                head = it.head if it.kind == "impl" else pub(it.head)
                tr = it.kind == "impl" and " for " in it.name
                out += head + go([x for c in it.children for x in flat(c)], tr) + [it.end]
            elif it.kind == "use" or it.kind == "macro_rules" or in_trait:
                out += it.toks if it.kind != "use" else (it.toks if it.toks[0].t != "pub" else it.toks)
            else:
                t = pub(it.toks)
                if it.kind == "struct":
                    t = fields(t)
                out += t
        return out

    def flat(it):
        if it.children is None:
            return it.toks
        return it.head + [x for c in it.children for x in flat(c)] + [it.end]

    def pub(t):
        k = 0
        while t[k].t == "#":
            k = match_close(t, k + 1) + 1
        if t[k].t == "pub":
            if t[k + 1].t == "(" and t[k + 2].t in ("crate", "super", "self", "in"):
                e = match_close(t, k + 1)
                return t[:k + 1] + t[e + 1:]
            return t
        p = Tok("pub", t[k].ws, t[k].line)
        return t[:k] + [p, Tok(t[k].t, " ", t[k].line)] + t[k + 1:]

    def fields(t):
        k = 0
        while t[k].t == "#":
            k = match_close(t, k + 1) + 1
        k = next(j for j, x in enumerate(t) if j >= k and x.t in ("{", "(", ";") and not (x.t == "(" and t[j - 1].t == "pub"))
        if t[k].t == ";":
            return t
        e = match_close(t, k)
        out = t[:k + 1]
        for a in split_args(t[k + 1:e]):
            if a:
                out += pub(a) + [Tok(",", "", a[0].line)]
        return out + t[e:]
    return go(toks, False)


# --- items -------------------------------------------------------------------



class Item:
    def __init__(self, kind, name, toks, children=None, lead=None):
        self.kind, self.name, self.toks, self.children, self.lead = kind, name, toks, children, lead or []
        self.key = (kind, name)


def items(toks):
    """Split a token list (may contain ghost tokens) into items. Returns (items, trailing ghost)."""
    res, i, n = [], 0, len(toks)
    while i < n:
        lead = []
        while i < n and toks[i].kind == "g":
            lead.append(toks[i])
            i += 1
        if i >= n:
            return res, lead
        st = i
        # attributes, visibility, substitution markers
        k = i
        while True:
            if toks[k].kind != "t":
                k += 1
            elif toks[k].t == "#":
                k = match_close(toks, k + 1) + 1
            elif toks[k].t == "pub":
                k += 1
                if toks[k].t == "(" and toks[k + 1].t in ("crate", "super", "self", "in"):
                    k = match_close(toks, k) + 1
            elif toks[k].t in MODS:
                k += 1
            elif toks[k].t == "const" and next(x for x in toks[k + 1:] if x.kind == "t").t in ("fn", "unsafe"):
                k += 1
            else:
                break
        kw = toks[k].t
        if kw not in ITEM_KW:
            raise LexError("unexpected token at item level: %r line %d" % (kw, toks[k].line))

        def name_at(j):
            while toks[j].kind != "t":
                j += 1
            return toks[j].t
        # end
        j = k
        body = None
        while j < n:
            x = toks[j]
            if x.kind == "t":
                if x.t == ";":
                    j += 1
                    break
                if x.t == "{" and kw not in ("use", "const", "static"):
                    body = j
                    j = match_close(toks, j) + 1
                    break
                if x.t in OPEN:
                    j = match_close(toks, j)
            j += 1
        # closing substitution marker belonging to this item
        opened = sum(1 for x in toks[st:j] if x.kind == "S") - sum(1 for x in toks[st:j] if x.kind == "E")
        while opened > 0 and j < n:
            if toks[j].kind == "E":
                opened -= 1
            j += 1
        span = toks[st:j]
        if kw == "impl":
            name = " ".join(x.t for x in toks[k:body] if x.kind == "t")
            ch, tail = items(toks[body + 1:j - 1])
            it = Item("impl", name, None, ch, lead)
            it.head = toks[st:body + 1]
            it.tail = tail
            it.end = toks[j - 1]
        elif kw == "mod" and body is not None:
            ch, tail = items(toks[body + 1:j - 1])
            it = Item("mod", name_at(k + 1), None, ch, lead)
            it.head = toks[st:body + 1]
            it.tail = tail
            it.end = toks[j - 1]
        elif kw == "use":
            it = Item("use", " ".join(x.t for x in span if x.kind == "t"), span, None, lead)
        else:
            it = Item(kw, name_at(k + 1), span, None, lead)
        res.append(it)
        i = j
    return res, []


# --- transplant --------------------------------------------------------------

CLAUSE = ("requires", "ensures", "invariant", "invariant_except_break", "decreases", "returns", "recommends",
          "no_unwind", "opens_invariants")


STUB = set()      # functions whose bodies are left out (reported as undecided)


class Report:
    def __init__(self):
        self.lost, self.changed, self.new, self.gone, self.subst_lost, self.subst = [], [], [], [], [], 0

    def clean(self):
        return not (self.lost or self.new or self.gone or self.subst_lost)


class Out:
    """Emitted text with a line map."""

    def __init__(self):
        self.parts = []
        self.line = 1
        self.map = {}      # emitted line -> (item path, ghost?, tag)
        self.cur = None

    def put(self, s, ghost=False):
        self.parts.append(s)
        for k in range(s.count("\n") + 1):
            ln = self.line + k
            if self.cur and s.strip():
                old = self.map.get(ln)
                self.map[ln] = (self.cur, ghost or bool(old and old[1]))
        self.line += s.count("\n")

    def text(self):
        return "".join(self.parts)


def plain(toks):
    return [x for x in toks if x.kind == "t"]


def emit_ghost(out, frags):
    for g in frags:
        if "\n" in g.ws or g.t.endswith("\n"):
            out.put("\n    " + g.t + "\n", True)
        else:
            out.put(" " + g.t + " ", True)
    if frags:
        out.put(" ")


def align(base, cur):
    """Index map base -> cur."""
    a, b = [x.t for x in base], [x.t for x in cur]
    if a == b:
        return list(range(len(a))), []
    sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
    m = [None] * len(a)
    ops = []
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == "equal":
            for k in range(i2 - i1):
                m[i1 + k] = j1 + k
        else:
            ops.append((tag, i1, i2, j1, j2))
    return m, ops


def renames(base, cur, ops):
    """Consistent identifier renames between two versions of an item."""
    cand, bad = {}, set()
    for tag, i1, i2, j1, j2 in ops:
        if tag == "replace" and i2 - i1 == j2 - j1:
            for k in range(i2 - i1):
                x, y = base[i1 + k].t, cur[j1 + k].t
                if IDENT.fullmatch(x) and IDENT.fullmatch(y) and x != y:
                    if cand.setdefault(x, y) != y:
                        bad.add(x)
    curids = {x.t for x in cur}
    return {x: y for x, y in cand.items() if x not in bad and x not in curids}


def transplant_leaf(base_toks, cur_toks, out, rep, path):
    """Emit cur_toks carrying over the ghost text and substitutions of base_toks."""
    base, ghosts, subs, stack = [], {}, [], []
    for x in base_toks:
        if x.kind == "t":
            base.append(x)
        elif x.kind == "g":
            if not stack:
                ghosts.setdefault(len(base), []).append(x)
        elif x.kind == "S":
            stack.append((len(base), x))
        elif x.kind == "E":
            s, xs = stack.pop()
            subs.append((s, len(base), x.repl, xs.ws))
    m, ops = align(base, cur_toks)
    ren = renames(base, cur_toks, ops) if ops else {}
    if ops:
        rep.changed.append((path, [(tag, " ".join(x.t for x in base[i1:i2]), " ".join(x.t for x in cur_toks[j1:j2]))
                                   for tag, i1, i2, j1, j2 in ops], ren))

    def rn(text):
        for x, y in ren.items():
            text = re.sub(r"(?<![A-Za-z0-9_.])%s(?![A-Za-z0-9_])" % x, y, text)
        return text
    before, after = {}, {}     # cur index -> ghost fragments before/after token
    for gi, frags in ghosts.items():
        first = frags[0].t.strip().split(None, 1)[0] if frags[0].t.strip() else ""
        frags = [Tok(rn(f.t), f.ws, f.line, "g") for f in frags]
        prev = m[gi - 1] if gi > 0 else None
        nxt = m[gi] if gi < len(base) else None
        if first.rstrip(",") in CLAUSE:
            if nxt is None or cur_toks[nxt].t != base[gi].t:
                rep.lost.append((path, "clause", frags[0].t.strip()))
            else:
                before.setdefault(nxt, []).extend(frags)
        elif prev is not None:
            after.setdefault(prev, []).extend(frags)
        elif nxt is not None:
            before.setdefault(nxt, []).extend(frags)
        else:
            rep.lost.append((path, "statement", frags[0].t.strip()))
    sub_at = {}
    for s, e, repl, ws in subs:
        js = [m[k] for k in range(s, e)]
        ok = all(j is not None for j in js) and all(js[k + 1] == js[k] + 1 for k in range(len(js) - 1))
        # renamed identifiers inside a substitution are fine too
        if not ok and s < e:
            p, q = (m[s - 1] if s > 0 else -1), (m[e] if e < len(base) else len(cur_toks))
            if p is not None and q is not None and q - p - 1 == e - s and all(
                    cur_toks[p + 1 + k].t == ren.get(base[s + k].t, base[s + k].t) for k in range(e - s)):
                js = list(range(p + 1, q))
                ok = True
        if ok and js:
            sub_at[js[0]] = (js[-1], rn(repl), ws)
            rep.subst += 1
        else:
            rep.subst_lost.append((path, " ".join(x.t for x in base[s:e])))
    i = 0
    body = None
    if path in STUB:
        out.put("\n#[verifier::external_body]", True)
        depth = 0
        for k, x in enumerate(cur_toks):
            depth += (x.t in "([") - (x.t in ")]")
            if x.t == "{" and depth == 0:
                body = k
                break
    while i < len(cur_toks):
        emit_ghost(out, before.get(i, []))
        if i == body:
            out.put("{ unimplemented!() }\n")
            break
        if i in sub_at:
            e, repl, ws = sub_at[i]
            out.put(cur_toks[i].ws)
            out.put(repl)
            out.put(" ")
            i = e
        else:
            out.put(cur_toks[i].ws + cur_toks[i].t)
        emit_ghost(out, after.get(i, []))
        i += 1


def transplant(bi, btail, ci, out, rep, path):
    """Items bi (annotated) against items ci (current)."""
    bmap = {}
    for it in bi:
        if it.kind != "use":
            bmap.setdefault(it.key, []).append(it)
    uses = {it.name: it for it in bi if it.kind == "use"}
    done = set()
    # unmatched functions: a pure rename is recognised by similarity
    ckeys = {it.key for it in ci}
    for it in ci:
        p = path + "::" + it.name if it.kind not in ("use",) else path
        if it.kind == "use":
            b = uses.get(it.name)
            if b:
                done.add(id(b))
                out.cur = None
                for g in b.lead:
                    out.put("\n" + g.t + "\n", True)
                transplant_leaf(b.toks, plain(it.toks), out, rep, p)
            else:
                rep.new.append(p + "::" + it.name)
                transplant_leaf(plain(it.toks), plain(it.toks), out, rep, p)
            continue
        bl = bmap.get(it.key)
        b = bl.pop(0) if bl else None
        if b is None:
            rep.new.append(p)
            out.cur = p
            if it.children is not None:
                for x in it.head:
                    out.put(x.ws + x.t)
                transplant([], [], it.children, out, rep, p)
                out.put(it.end.ws + it.end.t)
            else:
                transplant_leaf(plain(it.toks), plain(it.toks), out, rep, p)
            out.cur = None
            continue
        done.add(id(b))
        out.cur = p
        for g in b.lead:
            out.put("\n" + g.t + "\n", True)
        if it.children is not None:
            transplant_leaf(b.head, plain(it.head), out, rep, p)
            transplant(b.children, b.tail, it.children, out, rep, p)
            out.put(it.end.ws + it.end.t)
        else:
            transplant_leaf(b.toks, plain(it.toks), out, rep, p)
        out.cur = None
    for it in bi:
        if id(it) not in done:
            rep.gone.append(path + "::" + it.name)
            for g in it.lead:
                out.put("\n" + g.t + "\n", True)
    out.cur = path + "::(ghost)"
    for g in btail:
        out.put("\n" + g.t + "\n", True)
    out.cur = None


def current(module):
    """Stripped and rewritten tokens of a module of the current tree."""
    src = open(os.path.join(REPO, "src", module + ".rs")).read()
    return publicize(const_arrays(rewrite(expand_macros(strip(lex(src)), crate_macros()))))


def extract(modules, out_path=None, spec_files=(), stub=()):
    """Emit one Verus crate. Returns (text, Report, line map)."""
    out, rep = Out(), Report()
    STUB.clear()
    STUB.update(stub)
    out.put("// generated by /verif/tools/vx.py from %s/src\n" % REPO)
    for s in spec_files:
        name = os.path.basename(s)[:-3]
        out.cur = "spec::" + name
        out.put(open(s).read() + "\n", True)
        out.cur = None
    for mname in modules:
        base = lex(open(os.path.join(CONTRACTS, mname + ".rs")).read(), annotated=True)
        bi, btail = items(base)
        ci, _ = items(current(mname))
        out.put("\npub mod %s {\n#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::spec::*;\n"
                "#[allow(unused_imports)] use crate::vx::{self, BytesU16, BytesU32};\nverus! {\n" % mname)
        transplant(bi, btail, ci, out, rep, mname)
        out.put("\n} // verus!\n}\n")
    text = spinoff(out.text())
    if out_path:
        open(out_path, "w").write(text)
    return text, rep, out.map


def spinoff(text):
    """Every function gets a solver of its own: no function's proof disturbs another's."""
    lines, intrait = text.split("\n"), False
    for i, l in enumerate(lines):
        if re.match(r"\s*(pub )?trait ", l):
            intrait = True
        elif re.match(r"\s*(unsafe )?impl\b|\s*pub mod |\}", l):
            intrait = False
        if not intrait:
            lines[i] = re.sub(r"^(\s*)((pub )?(const |proof )?fn )", r"\1#[verifier::spinoff_prover] \2", l)
    return "\n".join(lines)


def show(toks):
    return "".join(x.ws + x.t for x in toks).lstrip("\n") + "\n"


if __name__ == "__main__":
    if sys.argv[1] == "base":          # starting point for a contract file
        print(show(current(sys.argv[2])))
    elif sys.argv[1] == "check":       # contract files against the current tree
        for f in sorted(os.listdir(CONTRACTS)):
            if f.endswith(".rs"):
                _, r, _ = extract([f[:-3]])
                print(f, "clean" if r.clean() and not r.changed else (r.changed, r.lost, r.new, r.gone, r.subst_lost), r.subst, "substitutions")
