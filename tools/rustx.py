#!/usr/bin/env python3
"""Mechanical extraction of items from /repo's Rust source into a Verus file.

A unit file (units/*.vrs) is Verus text in which blocks of directives name items of the
real source:

    //@@ fn <file> :: <seg> :: ... :: <name>       extract a function (signature and body)
    //@@ item <file> :: <seg> ... :: struct X      extract a type / const / static definition
    //@@ ret <name>                                name the return value
    //@@ spec            (lines up to next //@@)   requires / ensures clauses
    //@@ loop <k>        (lines)                   invariants of the k-th loop of the function
    //@@ at entry | loop <k> start | loop <k> end  ghost code inserted at that place
    //@@ sub `tokens` => `tokens`                  declared rewriting of the text (recorded)
    //@@ sig `tokens`                              declared replacement of the signature (recorded)
    //@@ name <ident>                              rename the extracted fn (recorded)
    //@@ opt <attr>                                verifier attribute put in front of the fn
    //@@ end

Everything else of the extracted text is the bytes of the source file.  What extraction
drops or rewrites without being asked: attributes, comments, `log::*!` statements and
debug assertions, visibility qualifiers; `assert!(c, ..)` becomes `rt_assert(c)` (a call
whose precondition is c), `unreachable!/panic!/todo!` become `rt_unreachable()` (precondition
false), `format!` becomes an opaque string.
"""
import re, sys, os

class ExtractError(Exception):
    """lost anchor / unsupported construct: the unit is undecided, never an alarm."""

IDENT = re.compile(r"r#[A-Za-z_]\w*|[A-Za-z_]\w*")
NUM = re.compile(r"0[xbo][0-9a-fA-F_]+[a-z0-9]*|[0-9][0-9_]*(\.[0-9][0-9_]*)?([eE][+-]?[0-9_]+)?[a-z0-9_]*")
PUNCT3 = ("<<=", ">>=", "...", "..=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "..", "<<", ">>")


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.s!r}"


def tokenize(src):
    """Returns tokens without whitespace and comments. k in id,num,str,char,life,p"""
    out = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1; j += 2
                elif src.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(b|c)?r(#*)"').match(src, i)
        if m:
            end = '"' + m.group(2)
            j = src.find(end, m.end())
            if j < 0:
                raise ExtractError("unterminated raw string")
            j += len(end)
            out.append(Tok("str", src[i:j], i, j)); i = j
            continue
        m = re.compile(r'(b|c)?"').match(src, i)
        if m:
            j = m.end()
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j)); i = j
            continue
        m = re.compile(r"b?'(\\x[0-9a-fA-F]{2}|\\u\{[0-9a-fA-F_]+\}|\\.|[^\\'])'").match(src, i)
        if m:
            out.append(Tok("char", m.group(0), i, m.end())); i = m.end()
            continue
        m = re.compile(r"'[A-Za-z_]\w*").match(src, i)
        if m:
            out.append(Tok("life", m.group(0), i, m.end())); i = m.end()
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end())); i = m.end()
            continue
        if c.isdigit():
            # a range `0..n` must not swallow the dots, nor `x.0.1`
            m = re.compile(r"0[xbo][0-9a-fA-F_]+[a-z0-9_]*|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?[a-zA-Z0-9_]*").match(src, i)
            out.append(Tok("num", m.group(0), i, m.end())); i = m.end()
            continue
        for p in PUNCT3:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + 3)); i += 3
                break
        else:
            for p in PUNCT2:
                if src.startswith(p, i):
                    out.append(Tok("p", p, i, i + 2)); i += 2
                    break
            else:
                out.append(Tok("p", c, i, i + 1)); i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(t, i):
    """index of the token closing the bracket at t[i]"""
    d = 0
    for j in range(i, len(t)):
        if t[j].k == "p":
            if t[j].s in OPEN:
                d += 1
            elif t[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise ExtractError("unbalanced brackets")


def skip_generics(t, i):
    """t[i] is '<' : index after the matching '>'"""
    d = 0
    while i < len(t):
        s = t[i].s
        if t[i].k == "p":
            if s == "<":
                d += 1
            elif s == ">":
                d -= 1
            elif s == "<<":
                d += 2
            elif s == ">>":
                d -= 2
            elif s in OPEN:
                i = match_close(t, i)
            if d <= 0:
                return i + 1
        i += 1
    raise ExtractError("unbalanced generics")


ITEM_KW = {"fn", "struct", "enum", "union", "impl", "mod", "trait", "const", "static", "type", "use", "macro_rules", "extern"}


class Item:
    __slots__ = ("kind", "name", "trait", "start", "kw", "body", "end", "head_end")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


def items(t, lo, hi):
    """items among tokens [lo,hi): start (after attributes) and token extents"""
    out = []
    i = lo
    while i < hi:
        # attributes
        while i < hi and t[i].s == "#" and i + 1 < hi and (t[i + 1].s == "[" or (t[i + 1].s == "!" and t[i + 2].s == "[")):
            j = i + 1 if t[i + 1].s == "[" else i + 2
            i = match_close(t, j) + 1
        if i >= hi:
            break
        start = i
        # qualifiers
        j = i
        while j < hi:
            if t[j].s == "pub":
                j += 1
                if j < hi and t[j].s == "(":
                    j = match_close(t, j) + 1
            elif t[j].s in ("unsafe", "async", "default", "open", "closed", "spec", "proof", "exec"):
                j += 1
            elif t[j].s == "const" and j + 1 < hi and t[j + 1].s in ("fn", "unsafe", "extern", "async"):
                j += 1
            elif t[j].s == "extern" and j + 1 < hi and t[j + 1].k == "str" and t[j + 2].s in ("fn", "unsafe"):
                j += 2
            else:
                break
        if j >= hi:
            break
        kw = t[j].s
        it = Item(kind=kw, start=start, kw=j)
        if kw == "fn":
            it.name = t[j + 1].s
            k = j + 2
            while t[k].s not in ("{", ";"):
                if t[k].s in ("(", "["):
                    k = match_close(t, k)
                k += 1
            it.head_end = k
            if t[k].s == "{":
                it.body = k; it.end = match_close(t, k) + 1
            else:
                it.end = k + 1
        elif kw == "impl":
            k = j + 1
            if t[k].s == "<":
                k = skip_generics(t, k)
            hdr = []
            d = 0
            depth0 = []
            while t[k].s != "{":
                if t[k].s in ("(", "["):
                    e = match_close(t, k)
                    if d == 0:
                        depth0.append(t[k])
                    k = e + 1
                    continue
                if t[k].s == "<":
                    k2 = skip_generics(t, k)
                    k = k2
                    continue
                if t[k].s == "where":
                    while t[k].s != "{":
                        k += 1
                    break
                depth0.append(t[k])
                k += 1
            names = [x for x in depth0 if x.k == "id" or x.s in ("for", "[", "(")]
            tr = None
            if any(x.s == "for" for x in names):
                p = [x.s for x in names].index("for")
                tr = names[p - 1].s if p else None
                names = names[p + 1:]
            ids = [x.s for x in names if x.s not in ("dyn", "mut", "const")]
            it.name = ids[-1] if ids else "?"
            if any(x.s == "dyn" for x in names):
                it.name = ids[0] if ids else "?"
            it.trait = tr
            it.head_end = k
            it.body = k
            it.end = match_close(t, k) + 1
        elif kw in ("struct", "enum", "union", "trait"):
            it.name = t[j + 1].s if t[j + 1].s != "$" else t[j + 2].s
            k = j + 2
            while t[k].s not in ("{", ";"):
                if t[k].s in ("(", "["):
                    k = match_close(t, k)
                elif t[k].s == "<":
                    k = skip_generics(t, k) - 1
                k += 1
            if t[k].s == "{":
                it.body = k; it.end = match_close(t, k) + 1
            else:
                it.end = k + 1
        elif kw == "mod":
            it.name = t[j + 1].s
            k = j + 2
            if t[k].s == "{":
                it.body = k; it.end = match_close(t, k) + 1
            else:
                it.end = k + 1
        elif kw == "macro_rules":
            it.name = t[j + 2].s
            k = j + 3
            it.body = k
            it.end = match_close(t, k) + 1
            if it.end < hi and t[it.end].s == ";":
                it.end += 1
        else:
            if kw == "thread_local" and j + 2 < hi and t[j + 1].s == "!" and t[j + 2].s == "{":
                # the statics in it
                e = match_close(t, j + 2)
                out.extend(items(t, j + 3, e))
                i = e + 1
                continue
            # const / static / type / use / extern / macro invocation: to the ';' at depth 0
            it.name = t[j + 1].s if j + 1 < hi else "?"
            if kw in ("const", "static") and it.name == "mut":
                it.name = t[j + 2].s
            k = j
            ended = False
            while k < hi:
                if t[k].s in OPEN:
                    e = match_close(t, k)
                    if t[k].s == "{" and kw not in ("const", "static", "use", "type"):
                        k = e + 1
                        ended = True
                        break
                    k = e
                elif t[k].s == ";":
                    k += 1
                    ended = True
                    break
                k += 1
            it.end = k
            if k <= j:
                it.end = j + 1
        out.append(it)
        i = it.end
    return out


class Source:
    def __init__(self, path, text=None):
        self.path = path
        if text is None:
            with open(path, encoding="utf-8") as f:
                text = f.read()
        self.src = text
        self.t = tokenize(self.src)

    def find(self, segs):
        """segs: list of strings; returns the unique matching Item"""
        cands = [(0, len(self.t))]
        for n, seg in enumerate(segs):
            last = n == len(segs) - 1
            nxt, hits = [], []
            for lo, hi in cands:
                base, _, nth = seg.partition("#")   # `impl From for X#2`: the third such item
                base, _, rule = base.partition("@")
                rule = int(rule or 0)
                same = [it for it in items(self.t, lo, hi) if seg_match(base, it)]
                for it in (same[int(nth):int(nth) + 1] if nth else same):
                        hits.append(it)
                        if it.kind == "macro_rules":
                            # the transcriber of its rule (`macro_rules m@1`: the second one)
                            k = match_close(self.t, it.body + 1) + 1
                            for _ in range(rule):
                                while self.t[k].s != "{":
                                    k += 1
                                k = match_close(self.t, k) + 1
                                while self.t[k].s not in OPEN:
                                    k += 1
                                k = match_close(self.t, k) + 1
                            while self.t[k].s != "{" and k < it.end - 1:
                                k += 1
                            nxt.append((k + 1, match_close(self.t, k)))
                        elif it.body is not None:
                            nxt.append((it.body + 1, it.end - 1))
            if last:
                if len(hits) == 0:
                    raise ExtractError(f"lost anchor: {' :: '.join(segs)} not found in {self.path}")
                if len(hits) > 1:
                    raise ExtractError(f"ambiguous anchor: {' :: '.join(segs)} in {self.path}")
                return hits[0]
            cands = nxt
        raise ExtractError("empty path")


def seg_match(seg, it):
    w = seg.split()
    if w[0] == "impl":
        if it.kind != "impl":
            return False
        if len(w) == 4 and w[2] == "for":
            return it.trait == w[1] and it.name == w[3]
        return it.trait is None and it.name == w[1]
    if len(w) == 2:
        return it.kind == w[0] and it.name == w[1]
    return it.kind == "fn" and it.name == w[0]


# ---------------------------------------------------------------- rewriting

def match_pattern(pat, t, i):
    """pat: list of Tok where id tokens `$x` are wildcards. returns (end, binds) or None"""
    def go(p, i, binds):
        if p == len(pat):
            return i, binds
        if pat[p].s == "$":
            name = pat[p + 1].s
            # shortest balanced non-empty run
            j = i
            while j < len(t):
                if t[j].s in CLOSE:
                    return None
                if t[j].s == ";" and not name[0].isupper():  # `$X` also spans statements
                    return None
                j = match_close(t, j) + 1 if t[j].s in OPEN else j + 1
                r = go(p + 2, j, {**binds, name: (i, j)})
                if r:
                    return r
            return None
        if i < len(t) and t[i].s == pat[p].s:
            return go(p + 1, i + 1, binds)
        return None
    return go(0, i, {})


def normal(toks):
    return " ".join(x.s for x in toks)


class Fn:
    """an extracted function: text with insertions and replacements by byte offsets"""

    def __init__(self, source, it):
        self.source, self.it = source, it
        self.edits = []  # (a, b, text)
        self.t = source.t[it.start:it.end]
        self.src = source.src

    def edit(self, a, b, text):
        self.edits.append((a, b, text))

    def render(self):
        a0, b0 = self.t[0].a, self.t[-1].b
        out, pos = [], a0
        # outermost replacements win; insertions have a == b
        eds = sorted(enumerate(self.edits), key=lambda e: (e[1][0], e[1][1] != e[1][0], -e[1][1], e[0]))
        for _, (a, b, s) in eds:
            if a < pos:
                continue
            out.append(strip_comments(self.src[pos:a]))
            out.append(s)
            pos = b
        out.append(strip_comments(self.src[pos:b0]))
        return "".join(out)


def strip_comments(s):
    """remove comments from a fragment that starts and ends outside strings"""
    t = tokenize_keep(s)
    return t


def tokenize_keep(s):
    out, last = [], 0
    for k in tokenize(s):
        gap = s[last:k.a]
        out.append(only_ws(gap)); out.append(k.s); last = k.b
    out.append(only_ws(s[last:]))
    return "".join(out)


def only_ws(g):
    if g.strip() == "":
        return g
    return "\n" * g.count("\n") if "\n" in g else " "


def find_loops(t, lo, hi):
    """indices (kw, body_open, body_close) of loops in source order"""
    out = []
    for i in range(lo, hi):
        if t[i].k == "id" and t[i].s in ("while", "loop", "for"):
            if t[i].s == "for" and t[i + 1].s == "<":
                continue  # for<'a>
            if i > 0 and t[i - 1].s == ".":
                continue
            j = i + 1
            while t[j].s != "{":
                if t[j].s in ("(", "["):
                    j = match_close(t, j)
                j += 1
                if j >= hi:
                    raise ExtractError("loop without body")
            # `while let S { .. } = e {` is not supported: header ends at the first brace,
            # unless it is followed by '='
            e = match_close(t, j)
            while t[i].s != "loop" and e + 1 < hi and t[e + 1].s in ("=", "."):
                j = e + 1
                while t[j].s != "{":
                    if t[j].s in ("(", "["):
                        j = match_close(t, j)
                    j += 1
                e = match_close(t, j)
            out.append((i, j, e))
    return out


LOGM = {"trace", "debug", "info", "warn", "error", "log"}


def deref_patterns(fn, report):
    """`Some(&x)` in a pattern -> `Some(x)` with `let x = *x;` at the start of the guarded block"""
    t = fn.t
    for i in range(1, len(t) - 4):
        if not (t[i].s == "(" and t[i + 1].s == "&" and t[i + 2].k == "id" and t[i + 2].s != "mut" and t[i + 3].s == ")" and t[i - 1].k == "id" and t[i - 1].s[:1].isupper()):
            continue
        x, nx = t[i + 2].s, t[i + 4].s
        if nx == "=":
            k = i - 1
            while k > 0 and (t[k].k == "id" and t[k].s != "let" or t[k].s == "::"):
                k -= 1
            if t[k].s != "let" or t[k - 1].s not in ("if", "while"):
                continue
            j = i + 5
            while j < len(t) and t[j].s != "{":
                j = match_close(t, j) + 1 if t[j].s in ("(", "[") else j + 1
            fn.edit(t[i + 1].a, t[i + 1].b, "")
            fn.edit(t[j].b, t[j].b, f" let {x} = *{x};")
        elif nx == "=>":
            j = i + 5
            fn.edit(t[i + 1].a, t[i + 1].b, "")
            if t[j].s == "{":
                fn.edit(t[j].b, t[j].b, f" let {x} = *{x};")
            else:
                e = j
                while e < len(t) and t[e].s not in (",", "}"):
                    e = match_close(t, e) + 1 if t[e].s in OPEN else e + 1
                fn.edit(t[j].a, t[j].a, f"{{ let {x} = *{x}; ")
                fn.edit(t[e].a, t[e].a, " }")
        else:
            continue
        report.add("pattern `V(&x)` -> `V(x)` followed by `let x = *x;`")


def builtin_rewrites(fn, report):
    deref_patterns(fn, report)
    t = fn.t
    i = 0
    n = len(t)
    while i < n:
        s = t[i].s
        # attributes
        if s == "#" and i + 1 < n and t[i + 1].s == "[":
            e = match_close(t, i + 1)
            fn.edit(t[i].a, t[e].b, "")
            i = e + 1
            continue
        if s == "log" and i + 3 < n and t[i + 1].s == "::" and t[i + 2].s in LOGM and t[i + 3].s == "!":
            e = match_close(t, i + 4)
            b = t[e].b
            if e + 1 < n and t[e + 1].s == ";":
                fn.edit(t[i].a, t[e + 1].b, "")
                e += 1
            else:
                fn.edit(t[i].a, b, "()")
            report.add("log::* statements dropped")
            i = e + 1
            continue
        if t[i].k == "id" and i + 1 < n and t[i + 1].s == "!" and i + 2 < n and t[i + 2].s in OPEN:
            e = match_close(t, i + 2)
            if s in ("debug_assert", "debug_assert_eq", "debug_assert_ne"):
                if e + 1 < n and t[e + 1].s == ";":
                    fn.edit(t[i].a, t[e + 1].b, "")
                    e += 1
                else:
                    fn.edit(t[i].a, t[e].b, "()")
                report.add("debug assertions dropped")
                i = e + 1
                continue
            if s in ("assert", "assert_eq", "assert_ne"):
                args, j0, j = [], i + 3, i + 3
                while j < e:
                    if t[j].s in OPEN:
                        j = match_close(t, j)
                    elif t[j].s == ",":
                        args.append((j0, j)); j0 = j + 1
                    j += 1
                if j0 < e:
                    args.append((j0, e))
                txt = [fn.src[t[a].a:t[b - 1].b] for a, b in args]
                if s == "assert":
                    fn.edit(t[i].a, t[e].b, f"rt_assert({strip_comments(txt[0])})")
                else:
                    op = "==" if s == "assert_eq" else "!="
                    fn.edit(t[i].a, t[e].b, f"rt_assert(({strip_comments(txt[0])}) {op} ({strip_comments(txt[1])}))")
                report.add(f"{s}!(c, msg) -> rt_assert(c) (precondition c, i.e. the panic must be proved unreachable)")
                i = e + 1
                continue
            if s in ("unreachable", "panic", "todo", "unimplemented"):
                fn.edit(t[i].a, t[e].b, "rt_unreachable()")
                report.add(f"{s}!() -> rt_unreachable() (precondition false)")
                i = e + 1
                continue
            if s == "format":
                fn.edit(t[i].a, t[e].b, "rt_format()")
                report.add("format!(..) -> opaque string")
                i = e + 1
                continue
        i += 1


def format_pieces(lit, args, named, where):
    """the pieces of a format string: literal text, or (argument, alternate, zero, width, kind)"""
    m = re.match(r'(r#*|)"(.*)"#*$', lit, re.S)
    if not m:
        raise ExtractError(f"format string not understood in {where}")
    raw, s = m.groups()
    out, cur, i, nxt = [], "", 0, 0
    while i < len(s):
        c = s[i]
        if not raw and c == "\\":
            if s[i + 1] == "u":
                raise ExtractError(f"escape in a format string in {where}")
            cur += s[i:i + 2]
            i += 2
        elif s.startswith(("{{", "}}"), i):
            cur += c
            i += 2
        elif c == "{":
            j = s.index("}", i)
            name, _, spec = s[i + 1:j].partition(":")
            g = re.match(r"(#?)(0?)((?:\w+\$|\d+)?)(x\?|X\?|x|X|\??)$", spec)
            if not g:
                raise ExtractError(f"format specifier {spec!r} not understood in {where}")
            if name == "":
                arg, nxt = args[nxt], nxt + 1
            elif name.isdigit():
                arg = args[int(name)]
            else:
                arg = named.get(name, name)
            w = g[3]
            width = "0" if not w else named.get(w[:-1], w[:-1]) if w[-1] == "$" else w
            if cur:
                out.append(cur)
            cur = ""
            out.append((arg, bool(g[1]), bool(g[2]), width, {"": 0, "x": 1, "x?": 1, "X": 2, "X?": 2, "?": 3}[g[4]]))
            i = j + 1
        else:
            cur += c
            i += 1
    if cur:
        out.append(cur)
    esc = lambda x: x.replace("\\", "\\\\").replace('"', '\\"') if raw else x
    return [f'rt_lit(rt_o, "{esc(x)}");' if isinstance(x, str) else
            f"rt_show(rt_o, &({x[0]}), {str(x[1]).lower()}, {str(x[2]).lower()}, {x[3]}, {x[4]});" for x in out]


def expand_formats(frag, where):
    while True:
        t = tokenize(frag)
        for i in range(len(t) - 2):
            if t[i].s in ("format", "write") and t[i + 1].s == "!" and t[i + 2].s == "(":
                break
        else:
            return frag
        e = match_close(t, i + 2)
        args, j0, j = [], i + 3, i + 3
        while j < e:
            if t[j].s in OPEN:
                j = match_close(t, j)
            elif t[j].s == ",":
                args.append((j0, j)); j0 = j + 1
            j += 1
        if j0 < e:
            args.append((j0, e))
        txt = [frag[t[a].a:t[b - 1].b] for a, b in args]
        dst = txt.pop(0) if t[i].s == "write" else None
        named = {}
        pos = []
        for x in txt[1:]:
            m = re.match(r"([A-Za-z_]\w*)\s*=(?!=)\s*(.*)$", x, re.S)
            if m:
                named[m[1]] = m[2]
            else:
                pos.append(x)
        ps = " ".join(format_pieces(txt[0], pos, named, where))
        if dst is None:
            new = "{ let mut rt_b = rt_new(); { let rt_o = &mut rt_b; " + ps + " } rt_b }"
        else:
            new = "{ let rt_o = &mut *" + dst + "; " + ps + " rt_done() }"
        frag = frag[:t[i].a] + new + frag[t[e].b:]


def expand_str_matches(frag, where):
    """match e { "a" | "b" => X, n @ ("c" | "d") => Y, n => Z }  =>  let rt_m = e; if rt_streq(rt_m, "a") || .. { X } else ..
    (string literals are no patterns for the verifier)"""
    for _ in range(50):
        t = tokenize(frag)
        done = True
        for i in range(len(t)):
            if t[i].s != "match" or t[i].k != "id":
                continue
            o = i + 1
            while t[o].s != "{":
                o = match_close(t, o) + 1 if t[o].s in OPEN else o + 1
            c = match_close(t, o)
            if t[o + 1].k != "str" and not any(t[k].k == "str" and t[k - 1].s in ("(", ",", "}") and t[k + 1].s in ("|", "=", "=>", ")") for k in range(o + 1, c)):
                continue
            arms, k = [], o + 1
            ok = True
            while k < c:
                p0 = k
                while not (t[k].s == "=>" or (t[k].s == "=" and t[k + 1].s == ">" and t[k + 1].a == t[k].b)):
                    k = match_close(t, k) + 1 if t[k].s in OPEN else k + 1
                p1 = k
                k += 1 if t[k].s == "=>" else 2
                b0 = k
                if t[k].s == "{":
                    k = match_close(t, k) + 1
                    b1 = k
                    if k < c and t[k].s == ",":
                        k += 1
                else:
                    while k < c and t[k].s != ",":
                        k = match_close(t, k) + 1 if t[k].s in OPEN else k + 1
                    b1 = k
                    k += 1
                pat = t[p0:p1]
                name = None
                if len(pat) > 1 and pat[1].s == "@":
                    name, pat = pat[0].s, pat[2:]
                    if pat[0].s == "(":
                        pat = pat[1:-1]
                if all(x.k == "str" if n % 2 == 0 else x.s == "|" for n, x in enumerate(pat)):
                    lits = [x.s for x in pat[::2]]
                elif len(pat) == 1 and pat[0].k == "id" and name is None:
                    lits, name = None, None if pat[0].s == "_" else pat[0].s
                else:
                    ok = False
                    break
                arms.append((lits, name, frag[t[b0].a:t[b1 - 1].b]))
            if not ok or not any(a[0] for a in arms) or arms[-1][0] is not None:
                continue
            out = "{ let rt_m = " + frag[t[i + 1].a:t[o - 1].b] + "; "
            for lits, name, body in arms:
                if lits is not None:
                    out += "if " + " || ".join(f"rt_streq(rt_m, {x})" for x in lits) + " "
                out += "{ " + (f"let {name} = rt_m; " if name else "") + body + " } " + ("else " if lits is not None else "")
                if lits is None:
                    break
            frag = frag[:t[i].a] + out + "}" + frag[t[c].b:]
            done = False
            break
        if done:
            return frag
    raise ExtractError(f"match over strings not understood in {where}")


def strip_vis(fn):
    t = fn.t
    i = 0
    while i < len(t) and t[i].s == "pub":
        if i + 1 < len(t) and t[i + 1].s == "(":
            e = match_close(t, i + 1)
            fn.edit(t[i + 1].a, t[e].b, "")
            i = e + 1
        else:
            i += 1


def make_public(fn):
    """visibility is irrelevant to the verified text: everything is public"""
    t = fn.t
    if t[0].s in ("struct", "enum", "trait", "const", "type", "static"):
        fn.edit(t[0].a, t[0].a, "pub ")
    k = 0
    while k < len(t) and t[k].s in ("pub",):
        k += 1
        if t[k].s == "(":
            k = match_close(t, k) + 1
    if k >= len(t) or t[k].s != "struct":
        return
    k += 2 if t[k + 1].s != "$" else 3
    if k < len(t) and t[k].s == "<":
        k = skip_generics(t, k)
    while k < len(t) and t[k].s not in ("{", "(", ";"):
        k += 1
    if k >= len(t) or t[k].s == ";":
        return
    e = match_close(t, k)
    i, start, ang = k + 1, True, 0
    while i < e:
        if start:
            while t[i].s == "#":
                i = match_close(t, i + 1) + 1
            if i >= e:
                break
            if t[i].s != "pub":
                fn.edit(t[i].a, t[i].a, "pub ")
            elif t[i + 1].s == "(":
                q = match_close(t, i + 1)
                fn.edit(t[i + 1].a, t[q].b, "")
                i = q
            start = False
        if t[i].s in OPEN:
            i = match_close(t, i) + 1
            continue
        if t[i].s == "<":
            ang += 1
        elif t[i].s == ">":
            ang -= 1
        elif t[i].s == ">>":
            ang -= 2
        elif t[i].s == "," and ang == 0:
            start = True
        i += 1


class Unit:
    def __init__(self, path, repo):
        self.path, self.repo = path, repo
        self.sources = {}
        self.fns = []        # dict(name, origin, line_lo, line_hi, has_requires)
        self.rewrites = set()
        self.out = []
        self.canary = False

    def source(self, f):
        if f not in self.sources:
            p = os.path.join(self.repo, f)
            if not os.path.exists(p):
                raise ExtractError(f"lost anchor: file {f} is gone")
            self.sources[f] = Source(p)
        return self.sources[f]

    def build(self, canary=False):
        self.fns, self.out, self.canary = [], [], canary
        self.rewrites = set()
        lines = open(self.path, encoding="utf-8").read().split("\n")
        seen = set()
        i = 0
        while i < len(lines):
            l = lines[i].strip()
            if l.startswith("//@@ include "):
                inc = os.path.join(os.path.dirname(self.path), l.split()[2])
                # a file is included once; a unit's own `main` is left out
                # `unless X`: left out when X, which it stands in for, is included already
                w = l.split()
                skip = len(w) > 4 and w[3] == "unless" and os.path.join(os.path.dirname(self.path), w[4]) in seen
                new = [] if inc in seen or skip else [x for x in open(inc, encoding="utf-8").read().split("\n") if x.strip() != "fn main() {}"]
                seen.add(inc)
                lines[i:i + 1] = new
                continue
            if l.startswith("//@@ fn ") or l.startswith("//@@ item "):
                blk = [l]
                i += 1
                while lines[i].strip() != "//@@ end":
                    blk.append(lines[i])
                    i += 1
                    if i >= len(lines):
                        raise RuntimeError(f"{self.path}: missing //@@ end")
                self.do_block(blk)
            elif l.startswith("//@@"):
                raise RuntimeError(f"{self.path}: stray directive {l}")
            else:
                self.out.append(lines[i])
            i += 1
        return "\n".join(self.out) + "\n"

    def do_block(self, blk):
        kind, rest = re.match(r"//@@ (fn|item) (.*)", blk[0]).groups()
        parts = [p.strip() for p in rest.split(" :: ")]
        f, segs = parts[0], parts[1:]
        mac = {}
        # directives
        ds, cur = [], None
        for l in blk[1:]:
            s = l.strip()
            if s.startswith("//@@ "):
                cur = [s[5:], []]
                ds.append(cur)
            elif cur is not None:
                cur[1].append(l)
        src = self.source(f)
        it = src.find(segs)
        blkds = list(ds)
        src, it = self.pre(src, it, segs, [d for d in ds if re.match(r"pre[ !]|only |fmt( opaque)?$|strmatch$", d[0])], f)
        ds = [d for d in ds if not re.match(r"pre[ !]|only |fmt( opaque)?$|strmatch$", d[0])]
        fmts = blkds
        fn = Fn(src, it)
        strip_vis(fn)
        for d in [d for d in ds if d[0].startswith("mac ")]:
            # the macro's arguments: `mac index_name=LineIndex`
            ds.remove(d)
            mac = dict(x.split("=") for x in d[0][4:].split())
            for i in range(len(fn.t) - 1):
                if fn.t[i].s == "$" and fn.t[i + 1].s in mac:
                    fn.edit(fn.t[i].a, fn.t[i + 1].b, mac[fn.t[i + 1].s])
            self.rewrites.add(f"{f}::{it.name}: macro arguments {d[0][4:]}")
        builtin_rewrites(fn, self.rewrites)
        t = fn.t
        has_req = False
        name = it.name
        post = []
        if kind == "item":
            make_public(fn)
            for d, body in ds:
                if re.match(r"sub[ ?!]", d):
                    self.do_sub(fn, d, f, it.name)
                elif d.startswith("derive "):
                    self.out.append(f"#[derive({d[7:]})]")
                elif d.startswith("opt "):
                    self.out.append(d[4:])
                else:
                    raise RuntimeError(f"bad directive {d} for item")
            self.out.append(fn.render())
            return
        bo = it.body - it.start if it.body is not None else None
        if bo is None:
            raise ExtractError(f"lost anchor: {rest} has no body")
        loops = find_loops(t, bo, len(t))
        ret, spec = None, []
        opts = []
        sig = None
        entry = []
        for d, body in ds:
            if d.startswith("ret "):
                ret = d[4:].strip()
            elif d == "spec":
                spec = body
            elif re.match(r"sub[ ?!]", d):
                self.do_sub(fn, d, f, it.name)
            elif d.startswith("opt "):
                opts.append(d[4:])
            elif d.startswith("name "):
                name = d[5:].strip()
                self.rewrites.add(f"{f}::{it.name} renamed {name} in the verified text")
            elif d.startswith("sig "):
                sig = re.match(r"sig `(.*)`$", d).group(1)
            elif re.match(r"loops \d+$", d):
                want = int(d.split()[1])
                if want != len(loops):
                    raise ExtractError(f"lost anchor: {f}::{it.name} has {len(loops)} loops, contracts are for {want}")
            elif re.match(r"loop \d+$", d):
                k = int(d.split()[1])
                if k >= len(loops):
                    raise ExtractError(f"lost anchor: loop {k} of {f}::{it.name}")
                fn.edit(t[loops[k][1]].a, t[loops[k][1]].a, "\n" + "\n".join(body) + "\n")
            elif d.startswith("at "):
                w = d[3:].split()
                txt = "\n" + "\n".join(body) + "\n"
                if w[0] == "entry":
                    entry.append(txt)
                elif w[0] == "loop":
                    k = int(w[1])
                    if k >= len(loops):
                        raise ExtractError(f"lost anchor: loop {k} of {f}::{it.name}")
                    if w[2] == "start":
                        p = t[loops[k][1]].b
                    elif w[2] == "end":
                        p = t[loops[k][2]].a
                    elif w[2] == "after":
                        p = t[loops[k][2]].b
                    else:
                        raise RuntimeError(d)
                    fn.edit(p, p, txt)
                elif w[0] in ("before", "after"):
                    # at before/after `token pattern` : ghost code next to a statement
                    m = re.match(r"at (before|after) `(.*)`(?:#(\d+))?$", d)
                    pat = tokenize(m.group(2))
                    hit = [(i, r) for i in range(bo, len(t)) for r in [match_pattern(pat, t, i)] if r]
                    k = int(m.group(3)) if m.group(3) else 0  # `..`#k: the k-th occurrence
                    if (len(hit) != 1 if m.group(3) is None else k >= len(hit)):
                        raise ExtractError(f"lost anchor: `{m.group(2)}` occurs {len(hit)} times in {f}::{it.name}")
                    i, r = hit[k]
                    p = t[i].a if m.group(1) == "before" else t[r[0] - 1].b
                    fn.edit(p, p, txt)
                elif w[0] == "end":
                    fn.edit(t[-1].a, t[-1].a, txt)
                else:
                    raise RuntimeError(d)
            else:
                raise RuntimeError(f"{self.path}: bad directive {d}")
        has_req = any(re.search(r"\brequires\b", x) for x in spec)
        if self.canary:
            # reachability canary: must FAIL, otherwise the precondition is contradictory
            entry.append(f"\n proof {{ assert(false); }} // canary {len(self.fns)}\n")
        if any(d in ("fmt", "strmatch") for d, _ in fmts):
            lits = sorted({x.s for x in t if x.k == "str" and re.match(r'r?#*"', x.s)})
            lits = [x if x[0] == '"' else '"' + re.match(r'r(#*)"(.*)"#*$', x, re.S)[2].replace("\\", "\\\\").replace('"', '\\"') + '"' for x in lits]
            entry.insert(1 if entry and entry[0].lstrip().startswith("hide(") else 0, "\n proof { " + " ".join(f"reveal_strlit({x});" for x in lits) + " }\n")
        if entry:
            p = t[bo].b
            fn.edit(p, p, "".join(entry))
        # signature
        spect = "\n" + "\n".join(spec) + "\n"
        if sig is not None:
            self.rewrites.add(f"{f}::{it.name} signature stated in the unit: {sig}")
            fn.edit(t[0].a, t[bo].a, sig + spect)
        else:
            # -> R  =>  -> (ret: R)
            kwi = it.kw - it.start
            if name != it.name:
                fn.edit(t[kwi + 1].a, t[kwi + 1].b, name)
            k = kwi + 2
            if t[k].s == "<":
                k = skip_generics(t, k)
            pc = match_close(t, k)
            if ret is not None and pc + 1 < bo and t[pc + 1].s == "->":
                j = pc + 2
                e = bo
                q = j
                while q < bo:
                    if t[q].s == "where":
                        e = q
                        break
                    q += 1
                fn.edit(t[j].a, t[j].a, f"({ret}: ")
                fn.edit(t[e - 1].b, t[e - 1].b, ")")
            fn.edit(t[bo].a, t[bo].a, spect)
        for o in opts:
            self.out.append(o)
        lo = sum(x.count("\n") + 1 for x in self.out) + 1
        txt = fn.render()
        self.out.append(txt)
        hi = lo + txt.count("\n")
        as_name = re.search(r"\bfn\s+(\w+)", sig).group(1) if sig is not None else name
        self.fns.append(dict(name=as_name, origin=f"{f}:{src.src.count(chr(10), 0, t[0].a) + 1} {'::'.join(segs)}" + ("" if as_name == segs[-1] else f" (as {as_name})"),
                             lo=lo, hi=hi, has_requires=has_req, loops=len(loops)))

    def pre(self, src, it, segs, ds, f):
        """rewritings made on the source text before anything else, one after the other; `pre!` must match"""
        a, b = src.t[it.start].a, src.t[it.end - 1].b
        mutself = re.search(r"\(\s*mut\s+self\b", src.src[a:src.t[it.body].a]) if it.body is not None else None
        if not ds and not mutself:
            return src, it
        frag = strip_comments(src.src[a:b])
        if mutself:
            # fn f(mut self) { .. self .. }  =>  fn f(self) { let mut rt_self = self; .. rt_self .. }
            t = tokenize(frag)
            k = next(i for i in range(len(t)) if t[i].s == "mut" and t[i + 1].s == "self")
            d, o = 0, k
            while not (t[o].s == "{" and d == 0):
                d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(t[o].s, 0) if o > k else 0
                if d < 0:
                    d = 0
                o += 1
            out, at = [frag[:t[k].a]], t[k + 1].a
            for i in range(o, len(t)):
                if i == o:
                    out.append(frag[at:t[i].b] + " let mut rt_self = self; ")
                    at = t[i].b
                elif t[i].s == "self":
                    out.append(frag[at:t[i].a] + "rt_self")
                    at = t[i].b
            frag = "".join(out) + frag[at:]
            self.rewrites.add(f"{f}::{it.name}: `mut self` -> a mutable local copy of `self`")
        for d, _ in ds:
            if d == "strmatch":
                frag = expand_str_matches(frag, f"{f}::{it.name}")
                self.rewrites.add("match over string literals -> comparisons in the order of the arms")
                continue
            if d in ("fmt", "fmt opaque"):
                frag = expand_formats(frag, f"{f}::{it.name}")
                self.rewrites.add("format!/write! -> one call per literal piece and per placeholder, in order")
                continue
            m = re.match(r"only `(.*)` => `(.*)`$", d)
            if m:
                # the part of the body that matches becomes the body of a function of its own
                t = tokenize(frag)
                pat = tokenize(m.group(1))
                hit = [(i, r) for i in range(len(t)) for r in [match_pattern(pat, t, i)] if r]
                if len(hit) != 1:
                    raise ExtractError(f"lost anchor: `{m.group(1)}` occurs {len(hit)} times in {f}::{it.name}")
                rep = m.group(2)
                for k, (x, y) in hit[0][1][1].items():
                    piece = frag[t[x].a:t[y - 1].b]
                    rep = re.sub(r"\$" + k + r"\b", lambda _m: piece, rep)
                j = next(i for i in range(len(t)) if t[i].s == "{")
                frag = frag[:t[j].b] + " " + rep + " }"
                self.rewrites.add(f"{f}::{it.name}: `{m.group(1)}` verified as a function of its own")
                continue
            m = re.match(r"pre(!?) `(.*)` => `(.*)`$", d)
            if not m:
                raise RuntimeError(f"bad pre: {d}")
            pat, n = tokenize(m.group(2)), 0
            while n < 200:
                g = apply_sub_text(frag, pat, m.group(3), n)
                if g is None:
                    break
                frag, n = g, n + 1
            if n == 0 and m.group(1):
                raise ExtractError(f"lost anchor: `{m.group(2)}` not found in {f}::{it.name}")
            if n:
                self.rewrites.add(f"{f}::{it.name}: `{m.group(2)}` -> `{m.group(3)}` (x{n})")
        s2 = Source(src.path, src.src[:a] + frag + src.src[b:])
        return s2, s2.find(segs)

    def do_sub(self, fn, d, f, name):
        m = re.match(r"sub(\?|!\d+)? `(.*)` => `(.*)`$", d)
        if not m:
            raise RuntimeError(f"bad sub: {d}")
        flag, p, r = m.groups()
        pat, t = tokenize(p), fn.t
        i, hits = 0, 0
        while i < len(t):
            g = match_pattern(pat, t, i)
            if g:
                e, binds = g
                txt = r
                for n, (a, b) in binds.items():
                    frag = strip_comments(fn.src[t[a].a:t[b - 1].b])
                    # nested rewrites in captured fragments
                    for _ in range(4):
                        g2 = apply_sub_text(frag, pat, r)
                        if g2 == frag:
                            break
                        frag = g2
                    txt = re.sub(r"\$" + n + r"\b", lambda _m: frag, txt)
                fn.edit(t[i].a, t[e - 1].b, txt)
                hits += 1
                i = e
            else:
                i += 1
        if hits == 0 and flag != "?":
            raise ExtractError(f"lost anchor: `{p}` not found in {f}::{name}")
        if hits:
            self.rewrites.add(f"{f}::{name}: `{p}` -> `{r}` (x{hits})")


def apply_sub_text(s, pat, r, skip=None):
    """one rewriting; with skip=n, None when there is nothing (more) to rewrite: text that was put in is not rewritten again"""
    t = tokenize(s)
    i = 0
    done = apply_sub_text.done if skip else 0
    while i < len(t):
        g = match_pattern(pat, t, i) if t[i].a >= done else None
        if g:
            e, binds = g
            txt = r
            for n, (a, b) in binds.items():
                txt = re.sub(r"\$" + n + r"\b", lambda _m: s[t[a].a:t[b - 1].b], txt)
            if skip is not None:
                # fragments taken over may be rewritten again, so go on behind the fixed part in front
                lead = re.match(r"[^$]*", r).group(0)
                apply_sub_text.done = t[i].a + len(lead)
            return s[:t[i].a] + txt + s[t[e - 1].b:]
        i += 1
    return s if skip is None else None


if __name__ == "__main__":
    u = Unit(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo")
    sys.stdout.write(u.build("--canary" in sys.argv))
