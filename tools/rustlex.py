"""Small Rust lexer and item scanner used by the extractor (no dependencies)."""
import re

KW_LOOP = {"for", "while", "loop"}


class Tok:
    __slots__ = ("kind", "text", "start", "end", "match", "idx")

    def __init__(self, kind, text, start, end):
        self.kind, self.text, self.start, self.end = kind, text, start, end
        self.match = None
        self.idx = -1

    def __repr__(self):
        return "%s@%d" % (self.text, self.start)


_ident = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")
_ops = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=",
        "/=", "%=", "^=", "&=", "|=", "<<", "..", ]


class LexError(Exception):
    pass


def lex(src, balance=True):
    """Tokens without comments and whitespace. '>>' is left as two '>' (generics)."""
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise LexError("raw string")
            j += len(close)
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == '"' or src.startswith('b"', i):
            j = i + (2 if c == "b" else 1)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or src.startswith("b'", i):
            k = i + (1 if c == "b" else 0)
            # char literal or lifetime
            m = re.compile(r"'(\\u\{[0-9A-Fa-f_]+\}|\\x[0-9A-Fa-f]{2}|\\.|[^\\'])'").match(src, k)
            if m:
                toks.append(Tok("char", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, k)
            if m and k == i:
                toks.append(Tok("life", m.group(0), i, m.end()))
                i = m.end()
                continue
            raise LexError("quote at %d" % i)
        m = _ident.match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = _num.match(src, i)
        if m:
            t = m.group(0)
            toks.append(Tok("num", t, i, m.end()))
            i = m.end()
            continue
        for op in _ops:
            if src.startswith(op, i):
                toks.append(Tok("op", op, i, i + len(op)))
                i += len(op)
                break
        else:
            toks.append(Tok("op", c, i, i + 1))
            i += 1
    if not balance:
        return toks
    stack = []
    pairs = {")": "(", "]": "[", "}": "{"}
    for k, t in enumerate(toks):
        t.idx = k
        if t.kind == "op":
            if t.text in "([{" and len(t.text) == 1:
                stack.append(t)
            elif t.text in pairs:
                if not stack or stack[-1].text != pairs[t.text]:
                    raise LexError("unbalanced %s at %d" % (t.text, t.start))
                o = stack.pop()
                o.match, t.match = t, o
    if stack:
        raise LexError("unbalanced")
    return toks


class Item:
    def __init__(self):
        self.kind = self.name = None
        self.attrs = []         # list of (start, end, text)
        self.start = self.end = 0
        self.hdr_start = 0      # first token after the attributes
        self.children = []
        self.body = None        # (open tok, close tok)
        self.toks = None        # token index range
        self.path = ""
        self.sig_end = None
        self.ret = None         # (start, end) of the return type
        self.fn_kw = None
        self.test = False


def _skip_generics(toks, i):
    """toks[i] is '<': return the index after the matching '>'."""
    depth = 0
    while i < len(toks):
        t = toks[i].text
        if t == "<":
            depth += 1
        elif t == "<<":
            depth += 2
        elif t == ">":
            depth -= 1
        elif t in "([{" and toks[i].match is not None and len(t) == 1:
            i = toks[i].match.idx
        i += 1
        if depth == 0:
            return i
    raise LexError("generics")


MODS = {"pub", "unsafe", "async", "const", "extern", "default"}


def parse_items(toks, lo, hi, path=""):
    """Items among toks[lo:hi]; nested for impl, trait and mod blocks."""
    items = []
    i = lo
    while i < hi:
        it = Item()
        start_tok = i
        # attributes
        while i < hi and toks[i].text == "#":
            j = i + 1
            if toks[j].text == "!":
                j += 1
            close = toks[j].match
            it.attrs.append((toks[i].start, close.end, "".join(t.text for t in toks[i:close.idx + 1])))
            i = close.idx + 1
        if i >= hi:
            break
        it.start = toks[start_tok].start
        it.hdr_start = toks[i].start
        hdr = i
        # visibility and qualifiers
        while toks[i].text in MODS:
            if toks[i].text == "pub" and toks[i + 1].text == "(":
                i = toks[i + 1].match.idx + 1
            elif toks[i].text == "const" and toks[i + 1].text not in ("fn", "unsafe", "async"):
                break
            elif toks[i].text == "extern" and toks[i + 1].kind == "str":
                i += 2
            else:
                i += 1
        kw = toks[i].text
        it.kind = kw

        def until_semi_or_brace(k):
            while k < hi:
                x = toks[k]
                if x.text == ";":
                    return k
                if x.text == "{":
                    return k
                if x.text in ("(", "["):
                    k = x.match.idx
                k += 1
            raise LexError("item end")

        if kw == "fn":
            it.name = toks[i + 1].text
            it.fn_kw = toks[i]
            k = i + 2
            if toks[k].text == "<":
                k = _skip_generics(toks, k)
            assert toks[k].text == "("
            it.params = (toks[k], toks[k].match)
            k = toks[k].match.idx + 1
            if toks[k].text == "->":
                rs = toks[k + 1].start
                e = k + 1
                while toks[e].text not in ("{", ";", "where"):
                    if toks[e].text in ("(", "["):
                        e = toks[e].match.idx
                    e += 1
                it.ret = (rs, toks[e - 1].end)
                k = e
            e = until_semi_or_brace(k)
            it.sig_end = toks[e].start
            # where clause start
            it.where = None
            for q in range(k, e):
                if toks[q].text == "where":
                    it.where = toks[q].start
            if toks[e].text == "{":
                it.body = (toks[e], toks[e].match)
                end = toks[e].match.idx
            else:
                end = e
        elif kw in ("struct", "enum", "union"):
            it.name = toks[i + 1].text
            e = until_semi_or_brace(i + 2)
            end = e if toks[e].text == ";" else toks[e].match.idx
        elif kw in ("impl", "trait", "mod"):
            e = until_semi_or_brace(i + 1)
            if toks[e].text == ";":
                it.name = toks[i + 1].text
                end = e
            else:
                if kw == "impl":
                    k = i + 1
                    if toks[k].text == "<":
                        k = _skip_generics(toks, k)
                    # text of the header without where clause
                    parts = []
                    for q in range(k, e):
                        if toks[q].text == "where":
                            break
                        parts.append(toks[q])
                    txt = ""
                    for p in parts:
                        if p.text == "for" or (txt.endswith("for")):
                            txt += " " + p.text
                        else:
                            txt += p.text
                    it.name = txt
                    # type name for paths: the last segment before generics of the self type
                    selfty = txt.split(" for ")[-1].strip()
                    base = re.sub(r"<.*$", "", selfty).split("::")[-1].strip("&")
                    sub = base if " for " not in txt else base
                    it.self_ty = base
                    it.children = parse_items(toks, e + 1, toks[e].match.idx, path + sub + "::")
                    it.is_trait_impl = " for " in txt
                elif kw == "trait":
                    it.name = toks[i + 1].text
                    it.children = parse_items(toks, e + 1, toks[e].match.idx, path + it.name + "::")
                else:
                    it.name = toks[i + 1].text
                    it.children = []
                it.body = (toks[e], toks[e].match)
                end = toks[e].match.idx
        elif kw == "use":
            e = i
            while toks[e].text != ";":
                e += 1
            end = e
            it.name = "".join(t.text for t in toks[i + 1:e])
        elif kw in ("const", "static", "type"):
            it.name = toks[i + 1].text
            e = i
            while toks[e].text != ";":
                if toks[e].text in ("(", "[", "{"):
                    e = toks[e].match.idx
                e += 1
            end = e
        elif toks[i].kind == "id" and toks[i + 1].text == "!":
            k = i + 2
            it.kind = "macro"
            it.name = kw
            if toks[k].kind == "id":
                it.name = kw + " " + toks[k].text
                k += 1
            close = toks[k].match
            end = close.idx
            if end + 1 < hi and toks[end + 1].text == ";":
                end += 1
        else:
            raise LexError("unknown item at %d: %s" % (toks[i].start, kw))
        it.end = toks[end].end
        it.toks = (hdr, end)
        it.path = path + (it.name or "")
        it.test = any("cfg(test)" in a[2] or a[2] == "#[test]" for a in it.attrs)
        items.append(it)
        i = end + 1
    return items


def loops_in(toks, lo, hi):
    """Loops (for, while, loop) of toks[lo:hi] in order: (kw tok, header-end index, open tok, close tok)."""
    out = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.text in KW_LOOP and not (t.text == "for" and toks[i + 1].text == "<"):
            k = i + 1
            while toks[k].text != "{":
                if toks[k].text in ("(", "["):
                    k = toks[k].match.idx
                k += 1
            out.append((t, toks[k], toks[k].match))
        i += 1
    return out


def find_seq(toks, lo, hi, pat):
    """All matches of the token texts pat (with $n metavariables) in toks[lo:hi].
    A metavariable matches a minimal non-empty balanced token run. Returns (i, j, {var: (a, b)})."""
    res = []
    for i in range(lo, hi):
        env = {}
        j = _match(toks, i, hi, pat, 0, env)
        if j is not None:
            res.append((i, j, env))
    return res


def _match(toks, i, hi, pat, p, env):
    if p == len(pat):
        return i
    w = pat[p]
    if w.startswith("$"):
        k = i
        while k < hi:
            t = toks[k]
            if t.text in (")", "]", "}") or t.text == ";":
                return None
            if t.text in ("(", "[", "{"):
                k = t.match.idx
            k += 1
            e2 = dict(env)
            e2[w] = (i, k)
            j = _match(toks, k, hi, pat, p + 1, e2)
            if j is not None:
                env.clear()
                env.update(e2)
                return j
        return None
    if i < hi and toks[i].text == w:
        return _match(toks, i + 1, hi, pat, p + 1, env)
    return None
