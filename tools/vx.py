"""Extractor: copies the modules of /repo/src into one Verus file, splicing the contracts of overlay/*.ovl.

Everything which differs from the source text is produced by the rules below (and nothing else):
  E1  tests, `use` of crates that are not verified, and the items listed by `=== drop` are left out
  E2  attributes (derive, doc, serde, rustfmt) are removed, except derive(Clone, Copy) on Copy types;
      derived Clone/PartialEq become the assumed specifications of the overlay
  E3  `log::x!(..)` becomes `()`, `format!(..)` becomes an opaque string, `debug_assert*!` is treated as `assert!`,
      `assert_eq!(a, b)` as `assert!(a == b)`
  E4  the std methods in METHODS are renamed to the wrappers with assumed contracts in overlay/vx.rs
  E5  single-arm macro_rules! used at item level (getter!, setter!) are expanded
  E6  per-function `--- rewrite` rules of the overlay (listed in the report)
  E8  every type, constant and field (not the functions) is made `pub` (specifications mention them; visibility has no run time effect)
  E9  in `for` loops, `if C { ..; continue; } REST` becomes `if C { ..; } else { REST }`
  E10 `fn f(mut self, ..) { .. }` becomes `fn f(self, ..) { let mut vx_self = self; .. }`
  E11 `&str` in the type of a constant is written `&'static str`
  E13 `.map_err(T::C)` with a constructor becomes `.map_err(|e| T::C(e))`
  E12 `=== rewrite` rules of the overlay on types and headers of impls (listed in the report)
  E7  functions marked `=== external`, or degraded by the driver, keep their contract only
Contracts, loop invariants and proof blocks are inserted at the anchors of the overlay.
"""
import json
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rustlex
from rustlex import lex, parse_items, loops_in, find_seq, LexError


class AnchorLost(Exception):
    def __init__(self, fn, what):
        super().__init__("%s: %s" % (fn, what))
        self.fn, self.what = fn, what


# ---------------------------------------------------------------- overlay

class FnOv:
    def __init__(self, path):
        self.path = path
        self.ret = None
        self.params = None
        self.spec = ""
        self.loops = {}       # n -> text
        self.blocks = []      # (where, arg, text)
        self.rewrites = []    # (pattern, replacement, all)
        self.external = False
        self.attrs = ""
        self.trusted = None   # reason
        self.bounded = None


class Overlay:
    def __init__(self):
        self.fns = {}
        self.top = ""
        self.bottom = ""
        self.drops = {}       # name -> reason
        self.keeps = []
        self.derive = {}
        self.item_rewrites = []
        self.uses_drop = []
        self.keepfields = set()


def parse_overlay(path):
    ov = Overlay()
    cur = None      # FnOv
    sect = None     # function receiving lines
    mode = None
    for ln in open(path).read().split("\n"):
        if ln.startswith("=== "):
            sect = None
            cur = None
            parts = ln[4:].strip().split(None, 1)
            kind, arg = parts[0], (parts[1] if len(parts) > 1 else "")
            if kind in ("fn", "external"):
                m = re.match(r"([^(]+?)(\((.*)\))?$", arg)
                cur = FnOv(m.group(1).strip())
                if m.group(3) is not None:
                    cur.params = [p.strip() for p in m.group(3).split(",") if p.strip()]
                cur.external = kind == "external"
                ov.fns[cur.path] = cur
            elif kind == "drop":
                name, _, why = arg.partition(" -- ")
                ov.drops[name.strip()] = why
            elif kind == "top":
                sect = ("top",)
            elif kind == "bottom":
                sect = ("bottom",)
            elif kind == "derive":
                n, _, d = arg.partition(":")
                ov.derive[n.strip()] = d.strip()
            elif kind == "keepfields":
                ov.keepfields.add(arg.strip())
            elif kind == "dropuse":
                ov.uses_drop.append(arg.strip())
            elif kind == "rewrite":
                sect = None
                a, _, b = arg.partition("`=>`")
                ov.item_rewrites.append((a.strip().strip("`"), b.strip().strip("`")))
            elif kind == "comment":
                sect = ("skip",)
            else:
                raise SystemExit("%s: bad directive %s" % (path, ln))
            continue
        if ln.startswith("--- ") and cur is not None:
            parts = ln[4:].split(None, 1)
            kind, arg = parts[0], (parts[1] if len(parts) > 1 else "")
            if kind == "ret":
                cur.ret = arg.strip()
                sect = None
            elif kind == "spec":
                sect = ("spec",)
            elif kind == "loop":
                a = arg.split()
                if len(a) == 1:
                    sect = ("loop", int(a[0]))
                else:
                    cur.blocks.append([a[1], int(a[0]), ""])
                    sect = ("block",)
            elif kind == "body-start":
                cur.blocks.append(["body-start", None, ""])
                sect = ("block",)
            elif kind in ("before", "after", "before-all", "after-all"):
                cur.blocks.append([kind, arg.strip(), ""])
                sect = ("block",)
            elif kind in ("rewrite", "rewrite-all", "rewrite?"):
                a, _, b = arg.partition("`=>`")
                cur.rewrites.append((a.strip().strip("`"), b.strip().strip("`"), kind))
                sect = None
            elif kind == "attr":
                cur.attrs += arg + "\n"
                sect = None
            elif kind == "trusted":
                cur.trusted = arg
                cur.external = True
                sect = None
            elif kind == "bounded":
                cur.bounded = arg
                sect = None
            else:
                raise SystemExit("%s: bad directive %s" % (path, ln))
            continue
        if sect is None:
            if ln.strip():
                raise SystemExit("%s: stray line %r" % (path, ln))
            continue
        if sect[0] == "top":
            ov.top += ln + "\n"
        elif sect[0] == "bottom":
            ov.bottom += ln + "\n"
        elif sect[0] == "spec":
            cur.spec += ln + "\n"
        elif sect[0] == "loop":
            cur.loops[sect[1]] = cur.loops.get(sect[1], "") + ln + "\n"
        elif sect[0] == "block":
            cur.blocks[-1][2] += ln + "\n"
    return ov


# ---------------------------------------------------------------- rewriting

METHODS = {"ends_with", "starts_with", "contains", "split", "rsplit", "split_once", "extend", "trim", "resize_vx",
           "is_ascii_alphanumeric", "is_alphanumeric", "to_uppercase", "parse", "is_whitespace", "to_string",
           "read_exact", "write_all", "deref_mut", "try_clone", "to_be_bytes"}


def pat_toks(p):
    """Token texts of a pattern, $n metavariables kept whole."""
    p2 = re.sub(r"\$([A-Za-z0-9]+)", r"__mv_\1", p)
    return [("$" + t.text[5:] if t.text.startswith("__mv_") else t.text) for t in lex(p2, balance=False)]


def apply_edits(src, lo, hi, edits):
    """Apply (start, end, text) edits to src[lo:hi]; insertions at equal positions keep their order."""
    out = []
    pos = lo
    for k, (s, e, t) in sorted(enumerate(edits), key=lambda x: (x[1][0], x[1][1] != x[1][0], x[0])):
        if s < pos:
            raise LexError("overlapping edits at %d" % s)
        out.append(src[pos:s])
        out.append(t)
        pos = e
    out.append(src[pos:hi])
    return "".join(out)


def generic_edits(src, toks, lo, hi):
    """Edits for rules E3 and E4 in toks[lo:hi]."""
    ed = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.text == "log" and toks[i + 1].text == "::" and toks[i + 3].text == "!":
            close = toks[i + 4].match
            ed.append((t.start, close.end, "()"))
            i = close.idx + 1
            continue
        if t.kind == "id" and t.text == "format" and toks[i + 1].text == "!":
            close = toks[i + 2].match
            ed.append((t.start, close.end, "crate::vx::vx_format()"))
            i = close.idx + 1
            continue
        if t.kind == "id" and t.text == "debug_assert" and toks[i + 1].text == "!":
            ed.append((t.start, t.end, "assert"))
        if t.kind == "id" and t.text in ("assert_eq", "debug_assert_eq") and toks[i + 1].text == "!":
            op = toks[i + 2]
            k = op.idx + 1
            commas = []
            while k < op.match.idx:
                if toks[k].text in ("(", "[", "{"):
                    k = toks[k].match.idx
                elif toks[k].text == ",":
                    commas.append(toks[k])
                k += 1
            ed.append((t.start, op.start, "assert!"))
            ed.append((commas[0].start, commas[0].end, " =="))
            if len(commas) > 1:
                ed.append((commas[1].start, op.match.start, ""))
            # the operands still get the other rules
        if t.kind == "id" and t.text in ("u16", "u32") and toks[i + 1].text == "::" and toks[i + 2].text == "from_be_bytes":
            ed.append((t.start, toks[i + 2].end, "crate::vx::vx_%s_from_be" % t.text))
            i += 3
            continue
        if t.text == "." and toks[i + 1].text == "map_err" and toks[i + 2].text == "(":
            # E13: a constructor given as a function is written as the closure which calls it
            arg = toks[i + 3:toks[i + 2].match.idx]
            names = arg[::2]
            if len(arg) >= 3 and all(x.kind == "id" for x in names) and all(x.text == "::" for x in arg[1::2]) \
                    and names[-1].text[0].isupper() and names[-2].text[0].isupper():
                p = "::".join(x.text for x in names)
                e = "::".join(x.text for x in names[:-1])
                ed.append((arg[0].start, arg[-1].end, "|vx_e| -> (vx_r: %s) ensures vx_r == %s(vx_e) { %s(vx_e) }" % (e, p, p)))
                i = toks[i + 2].match.idx + 1
                continue
        if t.text == "." and toks[i + 1].kind == "id" and toks[i + 1].text in METHODS and toks[i + 2].text in ("(", "::"):
            ed.append((toks[i + 1].start, toks[i + 1].end, "vx_" + toks[i + 1].text))
        i += 1
    return ed


def bindings(toks, lo, hi):
    """Names bound by let / for / closures in order (used to follow renamed locals)."""
    names = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.text in ("let", "for") and not (t.text == "for" and toks[i + 1].text == "<"):
            k = i + 1
            stop = ("=", ";", "in") if t.text == "let" else ("in",)
            colon = False
            while k < hi and toks[k].text not in stop:
                x = toks[k]
                if x.text == ":" and t.text == "let":
                    # type annotation (or a field pattern: handled as binding after the colon)
                    if toks[k - 1].kind == "id" and toks[k - 2].text in ("let", "mut"):
                        colon = True
                if not colon and x.kind == "id" and x.text[0].islower() and x.text not in ("mut", "ref") and \
                        toks[k + 1].text not in ("(", "::", "{", ":"):
                    names.append(x.text)
                k += 1
            i = k
        i += 1
    return names


def rename_idents(text, mp):
    if not mp:
        return text
    return re.sub(r"(?<![A-Za-z0-9_.])[A-Za-z_][A-Za-z0-9_]*", lambda m: mp.get(m.group(0), m.group(0)), text)


class Report:
    def __init__(self):
        self.fns = {}         # path -> dict(kind, lines)
        self.dropped = []
        self.rewrites = []
        self.lost = []
        self.hints = {}       # function -> proof hint which lost its place
        self.renamed = {}
        self.new_fns = []


def stmt_start(toks, i, lo):
    """Start index of the statement containing token i (walking backwards over balanced groups)."""
    k = i - 1
    while k > lo:
        x = toks[k]
        if x.text in (")", "]"):
            k = x.match.idx - 1
            continue
        if x.text == "}":
            return k + 1
        if x.text in (";", "{", "=>"):
            return k + 1
        k -= 1
    return lo + 1


def stmt_end(toks, i, hi):
    k = i
    while k < hi:
        x = toks[k]
        if x.text in ("(", "[", "{"):
            k = x.match.idx
        elif x.text == ";":
            return k
        elif x.text == "}":
            return k - 1
        k += 1
    raise LexError("statement end")


def emit_fn(src, toks, it, fo, path, deg, base, rep, in_trait):
    """Text of a function with its contract. deg: None, 'body' or 'contract'."""
    pre = src[it.hdr_start:it.fn_kw.start]
    info = {"kind": "contract" if fo and fo.spec.strip() else "auto", "degraded": deg}
    if it.body is None:
        body = None
    b_lo, b_hi = (it.body[0].idx, it.body[1].idx) if it.body else (0, 0)
    binds = bindings(toks, b_lo, b_hi) if it.body else []
    params = param_names(toks, it)
    nloops = len(loops_in(toks, b_lo, b_hi)) if it.body else 0
    info["shape"] = {"binds": binds, "params": params, "loops": nloops,
                     "calls": sorted(set(called(toks, b_lo, b_hi))), "bits": bit_ops(toks, b_lo, b_hi)}
    mp = {}
    b = base.get(path)
    if b:
        if len(b["params"]) == len(params):
            mp.update({x: y for x, y in zip(b["params"], params) if x != y and x != "self"})
        if len(b["binds"]) == len(binds):
            for x, y in zip(b["binds"], binds):
                if x != y:
                    if x in mp and mp[x] != y:
                        mp = None
                        break
                    mp[x] = y
        if mp:
            rep.renamed[path] = mp
        mp = mp or {}
    spec = fo.spec if fo else ""
    spec = rename_idents(spec, mp)
    # signature
    edits = []
    sig_lo, sig_hi = it.fn_kw.start, it.sig_end
    if fo and fo.ret and it.ret:
        edits.append((it.ret[0], it.ret[1], "(%s: %s)" % (fo.ret, src[it.ret[0]:it.ret[1]].strip())))
    elif it.ret and fo and fo.spec.strip():
        edits.append((it.ret[0], it.ret[1], "(r: %s)" % src[it.ret[0]:it.ret[1]].strip()))
    sigtoks = [t for t in toks[it.toks[0]:(b_lo or it.toks[1])] if t.start >= sig_lo]
    rw_sig = []
    if fo:
        for pat, repl, kind in fo.rewrites:
            if kind == "rewrite" and pat.startswith("SIG "):
                m = find_seq(toks, it.fn_kw.idx, b_lo if it.body else it.toks[1] + 1, pat_toks(pat[4:]))
                if not m:
                    if deg:
                        continue
                    raise AnchorLost(path, "signature pattern `%s`" % pat)
                for (x, y, env) in m[:1]:
                    edits = [e for e in edits if not (e[0] < toks[y - 1].end and toks[x].start < e[1])]
                    edits.append((toks[x].start, toks[y - 1].end, subst(repl, env, src, toks)))
    sig = apply_edits(src, sig_lo, sig_hi, edits).rstrip()
    if deg in ("contract", "gone"):
        spec = ""
    attrs = fo.attrs if fo else ""
    if deg == "gone" and not in_trait:
        attrs += "#[verifier::external]\n"
    external = (fo and fo.external) or deg
    if external and it.body and (deg != "gone" or in_trait):
        attrs += "#[verifier::external_body]\n"
    out = ["//@FN %s\n" % path, attrs, pre, sig, "\n"]
    if spec.strip():
        out.append(spec.rstrip() + "\n")
    if it.body is None:
        out.append(";\n//@ENDFN\n")
        return "".join(out), info
    if external:
        info["kind"] = "trusted" if not deg else "degraded"
        out.append("{ unimplemented!() }\n//@ENDFN\n")
        return "".join(out), info
    out.append(emit_body(src, toks, it, fo, path, mp, rep))
    out.append("\n//@ENDFN\n")
    return "".join(out), info


def bit_ops(toks, lo, hi):
    """The bit operators of a body which shifts, in order (empty for the others)."""
    ops = []
    for i in range(lo + 1, hi):
        a, t, b = toks[i - 1], toks[i].text, toks[i + 1]
        if t == ">" and b.text == ">" and b.start == toks[i].end and i + 2 < hi:
            t, b = ">>", toks[i + 2]
        if t in ("<<", ">>", "&", "|", "^", "<<=", ">>=", "&=", "|=", "^="):
            if (a.kind in ("id", "num") or a.text in (")", "]")) and (b.kind in ("id", "num") or b.text in ("(", "!", "*")):
                ops.append(t)
    return " ".join(ops) if any(x[:2] in ("<<", ">>") for x in ops) else ""


def called(toks, lo, hi):
    res = []
    for i in range(lo, hi):
        if toks[i].kind == "id" and toks[i + 1].text == "(":
            res.append(toks[i].text)
    return res


def param_names(toks, it):
    names = []
    o, c = it.params
    k = o.idx + 1
    first = True
    depth_start = True
    while k < c.idx:
        x = toks[k]
        if x.text in ("(", "[", "{"):
            if depth_start:
                names.append("_pat")
                depth_start = False
            k = x.match.idx
        elif x.text == "<":
            k = rustlex._skip_generics(toks, k) - 1
        elif x.text == ",":
            depth_start = True
        elif depth_start and x.kind == "id" and x.text not in ("mut", "ref"):
            names.append(x.text)
            depth_start = False
        k += 1
    return names


def subst(repl, env, src, toks):
    def f(m):
        a, b = env["$" + m.group(1)]
        text = src[toks[a].start:toks[b - 1].end]
        sub_t = lex(text)
        ed = generic_edits(text, sub_t + [rustlex.Tok("op", "", 0, 0)] * 5, 0, len(sub_t))
        return apply_edits(text, 0, len(text), ed)
    return re.sub(r"\$([A-Za-z0-9]+)", f, repl)


def emit_body(src, toks, it, fo, path, mp, rep):
    lo, hi = it.body[0].idx, it.body[1].idx
    edits = []
    covered = []
    if fo:
        for pat, repl, kind in fo.rewrites:
            if pat.startswith("SIG "):
                continue
            ms = find_seq(toks, lo + 1, hi, pat_toks(pat))
            # matches of renamed locals
            if not ms and mp:
                ms = find_seq(toks, lo + 1, hi, pat_toks(rename_idents(pat, mp)))
            ms = [m for m in ms if not any(a <= m[0] < b or a < m[1] <= b for a, b in covered)]
            if not ms:
                if kind == "rewrite?":
                    continue
                raise AnchorLost(path, "pattern `%s`" % pat)
            if kind != "rewrite-all":
                ms = ms[:1]
            last = -1
            for (x, y, env) in ms:
                if x < last:
                    continue
                last = y
                edits.append((toks[x].start, toks[y - 1].end, subst(rename_idents(repl, mp), env, src, toks)))
                covered.append((x, y))
            rep.rewrites.append((path, pat, repl))
    for e in generic_edits(src, toks, lo, hi):
        if not any(toks[a].start <= e[0] < toks[b - 1].end for a, b in covered):
            edits.append(e)
    if fo:
        lps = loops_in(toks, lo, hi)
        for n, text in fo.loops.items():
            if n >= len(lps):
                raise AnchorLost(path, "loop %d" % n)
            edits.append((lps[n][1].start, lps[n][1].start, "\n" + rename_idents(text, mp)))
        if len(lps) > 0 and fo.loops and max(fo.loops) + 1 < len(lps):
            pass
        for where, arg, text in fo.blocks:
            text = rename_idents(text, mp)
            if where == "body-start":
                p = it.body[0].end
                edits.append((p, p, "\n" + text))
            elif where in ("start", "end", "pre", "post"):
                if arg >= len(lps):
                    raise AnchorLost(path, "loop %d" % arg)
                kw, o, c = lps[arg]
                if where == "start":
                    edits.append((o.end, o.end, "\n" + text))
                elif where == "end":
                    edits.append((c.start, c.start, text))
                elif where == "pre":
                    s = toks[stmt_start(toks, kw.idx, lo)].start
                    edits.append((s, s, text))
                else:
                    edits.append((c.end, c.end, "\n" + text))
            elif where in ("before", "after", "before-all", "after-all"):
                pat = arg.strip().strip("`")
                nth = 0
                m = re.match(r"^#(\d+) (.*)$", pat)
                if m:
                    nth, pat = int(m.group(1)), m.group(2).strip("`")
                ms = find_seq(toks, lo + 1, hi, pat_toks(pat))
                if not ms and mp:
                    ms = find_seq(toks, lo + 1, hi, pat_toks(rename_idents(pat, mp)))
                # keep distinct starts
                seen, uniq = set(), []
                for x in ms:
                    if x[0] not in seen:
                        seen.add(x[0])
                        uniq.append(x)
                if len(uniq) <= nth:
                    # a proof hint: the function is verified without it (a refusal then says nothing)
                    rep.hints[path] = "anchor `%s`" % pat
                    continue
                sel = uniq if where.endswith("-all") else [uniq[nth]]
                for (x, y, env) in sel:
                    if where.startswith("before"):
                        s = toks[stmt_start(toks, x, lo)].start
                        edits.append((s, s, text))
                    else:
                        e = toks[stmt_end(toks, x, hi)].end
                        edits.append((e, e, "\n" + text))
    edits += continue_edits(toks, lo, hi)
    return apply_edits(src, it.body[0].start, it.body[1].end, edits)


def continue_edits(toks, lo, hi):
    """E9: in the body of a `for` loop, `if C { ..; continue; } REST` becomes `if C { ..; } else { REST }`."""
    ed = []
    for kw, o, c in loops_in(toks, lo, hi):
        if kw.text != "for":
            continue
        k = o.idx + 1
        while k < c.idx:
            if toks[k].text == "if" and toks[k - 1].text in (";", "{", "}"):
                m = k + 1
                while toks[m].text != "{":
                    if toks[m].text in ("(", "["):
                        m = toks[m].match.idx
                    m += 1
                e = toks[m].match
                if toks[e.idx - 1].text == ";" and toks[e.idx - 2].text == "continue" and toks[e.idx + 1].text != "else":
                    ed.append((toks[e.idx - 2].start, toks[e.idx - 1].end, ""))
                    ed.append((e.end, e.end, " else {"))
                    ed.append((c.start, c.start, "}"))
                k = e.idx
            elif toks[k].text in ("{", "(", "["):
                k = toks[k].match.idx
            k += 1
    return ed


# ---------------------------------------------------------------- macros (E5)

def collect_macros(src, toks, items):
    mac = {}
    for it in items:
        if it.kind == "macro" and it.name.startswith("macro_rules "):
            name = it.name.split()[1]
            # single arm: ( pattern ) => { body } ;
            o = None
            for k in range(it.toks[0], it.toks[1] + 1):
                if toks[k].text == "{" and toks[k].match is not None:
                    o = toks[k]
                    break
            p = toks[o.idx + 1]
            if p.text != "(" or toks[p.match.idx + 1].text != "=>":
                continue
            b = toks[p.match.idx + 2]
            after = b.match.idx + 1
            rest = [t for t in toks[after:o.match.idx] if t.text != ";"]
            if rest:
                continue
            params = []
            k = p.idx + 1
            while k < p.match.idx:
                if toks[k].text == "$":
                    params.append(toks[k + 1].text)
                k += 1
            mac[name] = (params, src[b.end:b.match.start])
    return mac


def expand_macros(src):
    """Expand the item-level uses of single-arm macros (inside impl blocks too)."""
    toks = lex(src)
    items = parse_items(toks, 0, len(toks))
    mac = collect_macros(src, toks, items)
    edits = []

    def walk(its):
        for it in its:
            if it.kind == "macro" and it.name in mac:
                params, body = mac[it.name]
                o = next(t for t in toks[it.toks[0]:] if t.text in ("(", "{"))
                args, cur = [], o.end
                k = o.idx + 1
                while k < o.match.idx:
                    if toks[k].text in ("(", "[", "{"):
                        k = toks[k].match.idx
                    elif toks[k].text == ",":
                        args.append(src[cur:toks[k].start].strip())
                        cur = toks[k].end
                    k += 1
                args.append(src[cur:o.match.start].strip())
                text = body
                for p, a in zip(params, args):
                    text = re.sub(r"\$%s\b" % p, a, text)
                edits.append((it.start, it.end, text))
            elif it.children:
                walk(it.children)
    walk(items)
    return apply_edits(src, 0, len(src), edits) if edits else src


def expand_mut_self(src):
    """E10: `fn f(mut self, ..) { .. self .. }` becomes `fn f(self, ..) { let mut vx_self = self; .. vx_self .. }`."""
    toks = lex(src)
    edits = []
    for i, t in enumerate(toks[:-2]):
        if t.text == "(" and toks[i + 1].text == "mut" and toks[i + 2].text == "self":
            b = t.match.idx + 1
            while b < len(toks) and toks[b].text not in ("{", ";"):
                b += 1
            if b >= len(toks) or toks[b].text == ";":
                continue
            edits.append((toks[i + 1].start, toks[i + 2].start, ""))
            edits.append((toks[b].end, toks[b].end, " let mut vx_self = self;"))
            for k in range(b + 1, toks[b].match.idx):
                if toks[k].text == "self":
                    edits.append((toks[k].start, toks[k].end, "vx_self"))
    return apply_edits(src, 0, len(src), edits) if edits else src


# ---------------------------------------------------------------- files and module tree

EXTERNAL_USE = ("serde", "rand", "colored", "log", "simple_logger", "std::fmt")


def item_edits(toks, ov, path, rep):
    """`=== rewrite` rules, applied to the text of types and to the headers of impls."""
    ed = []
    for pat, repl in ov.item_rewrites:
        for x, y, env in find_seq(toks, 0, len(toks), pat_toks(pat)):
            ed.append((toks[x].start, toks[y - 1].end, repl))
            rep.rewrites.append((path, pat, repl))
    return ed


def emit_item(src, toks, it, ov, modpath, deg, base, rep, in_impl=None):
    if it.test:
        return ""
    full = it.path
    for key in (it.kind + " " + (it.name or ""), "fn " + full if it.kind == "fn" else None):
        if key and key in ov.drops:
            rep.dropped.append((modpath + "::" + full, ov.drops[key]))
            return ""
    if it.kind == "use":
        if it.name.startswith(EXTERNAL_USE) or any(it.name.startswith(u) for u in ov.uses_drop):
            return ""
        return re.sub(r"^((?:pub )?use )ariadne_dns::", r"\1crate::", src[it.hdr_start:it.end]) + "\n"
    if it.kind == "macro":
        return ""
    if it.kind in ("struct", "enum"):
        d = ov.derive.get(it.name)
        if d is None:
            names = set()
            for a in it.attrs:
                m = re.match(r"#\[derive\((.*)\)\]", a[2])
                if m:
                    names |= set(x.strip() for x in m.group(1).split(","))
            keep = ["Debug"] if "Debug" in names else []
            if "Copy" in names:
                keep += ["Clone", "Copy"]
            d = "#[derive(%s)]" % ", ".join(keep) if keep else None
        body_t = src[it.hdr_start:it.end]
        toks2 = lex(body_t)
        # drop attributes inside
        ed = item_edits(toks2, ov, modpath + "::" + full, rep)
        for t in toks2:
            if t.text == "#" and toks2[t.idx + 1].text == "[":
                ed.append((t.start, toks2[t.idx + 1].match.end, ""))
        if it.kind == "struct" and it.name not in ov.keepfields:
            o = next((t for t in toks2 if t.text in ("{", "(")), None)
            if o is not None and o.match is not None:
                k, fresh = o.idx + 1, True
                while k < o.match.idx:
                    x = toks2[k]
                    if x.text == "#":
                        k = toks2[k + 1].match.idx + 1
                        continue
                    if fresh and x.text != "pub":
                        ed.append((x.start, x.start, "pub "))
                    fresh = False
                    if x.text in ("(", "[", "{"):
                        k = x.match.idx
                    elif x.text == "<":
                        k = rustlex._skip_generics(toks2, k) - 1
                    elif x.text == ",":
                        fresh = True
                    k += 1
        body_t = apply_edits(body_t, 0, len(body_t), ed)
        if not body_t.startswith("pub"):
            body_t = "pub " + body_t
        return ("%s\n" % d if d else "") + body_t + "\n"
    if it.kind in ("const", "static", "type"):
        t = src[it.hdr_start:it.end] + "\n"
        if it.kind != "type":
            t = re.sub(r"&\s*(?=str\b)", "&'static ", t)
        return t if t.startswith("pub") or (in_impl and in_impl.kind != "impl") or (in_impl and in_impl.is_trait_impl) else "pub " + t
    if it.kind in ("impl", "trait"):
        if it.kind == "impl" and it.is_trait_impl:
            pass
        hdr = src[it.hdr_start:it.body[0].end]
        if ov.item_rewrites:
            h2 = lex(hdr, balance=False)
            hdr = apply_edits(hdr, 0, len(hdr), item_edits(h2, ov, modpath + "::" + (it.name or ""), rep))
        out = [hdr, "\n"]
        if it.kind == "trait" and ("trait " + it.name) in ov.fns:
            out.append(ov.fns["trait " + it.name].spec)
        if it.kind == "impl" and ("impl " + it.name) in ov.fns:
            out.append(ov.fns["impl " + it.name].spec)
        for c in it.children:
            out.append(emit_item(src, toks, c, ov, modpath, deg, base, rep, it))
        out.append("}\n")
        return "".join(out)
    if it.kind == "fn":
        path = modpath + "::" + full
        fo = ov.fns.get(full)
        d = deg.get(path)
        in_trait = in_impl is not None and (in_impl.kind == "trait" or in_impl.is_trait_impl)
        try:
            text, info = emit_fn(src, toks, it, fo, path, d, base, rep, in_trait)
        except (AnchorLost, LexError) as e:
            rep.lost.append((path, str(e)))
            rep.hints.pop(path, None)
            text, info = emit_fn(src, toks, it, fo, path, d or "body", base, rep, in_trait)
        info["trusted"] = fo.trusted if fo else None
        rep.fns[path] = info
        return text
    raise LexError("item kind %s" % it.kind)


def build(repo_src, tree, ovdir, deg=None, base=None):
    """tree: {module name: subtree dict or overlay name or None}. Returns (text, Report)."""
    deg, base = deg or {}, base or {}
    rep = Report()

    def mod_text(name, sub, fsdir, modpath):
        """A module with children: mod.rs (or lib.rs)."""
        out = []
        fname = os.path.join(fsdir, "mod.rs")
        src = open(fname).read()
        toks = lex(src)
        items = parse_items(toks, 0, len(toks))
        for it in items:
            if it.kind == "mod":
                if it.name in sub:
                    vis = src[it.hdr_start:it.start + 0]
                    decl = src[it.hdr_start:it.end]
                    pub = "pub " if decl.startswith("pub") else ""
                    out.append(leaf(it.name, sub[it.name], fsdir, modpath + "::" + it.name, "pub "))
            elif it.kind == "use":
                first = it.name.split("::")[0]
                if first in sub or first in ("crate", "self", "super"):
                    out.append(src[it.hdr_start:it.end] + "\n")
        return "".join(out)

    def leaf(name, sub, fsdir, modpath, vis):
        if isinstance(sub, dict) and not os.path.exists(os.path.join(fsdir, name, "mod.rs")):
            # a directory of programs: each is a crate which uses the library by its name
            return "%smod %s {\n%s}\n" % (vis, name, "".join(
                leaf(n, s, os.path.join(fsdir, name), modpath + "::" + n, "pub ") for n, s in sub.items()))
        if isinstance(sub, dict):
            return "%smod %s {\n%s}\n" % (vis, name, mod_text(name, sub, os.path.join(fsdir, name), modpath))
        path = os.path.join(fsdir, name + ".rs")
        src = expand_mut_self(expand_macros(open(path).read()))
        toks = lex(src)
        toks_pad = toks + [rustlex.Tok("op", "", len(src), len(src)) for _ in range(6)]
        for k, t in enumerate(toks_pad):
            t.idx = k
        items = parse_items(toks, 0, len(toks))
        ovp = os.path.join(ovdir, (sub or name) + ".ovl")
        ov = parse_overlay(ovp) if os.path.exists(ovp) else Overlay()
        uses = [i for i in items if i.kind == "use"]
        rest = [i for i in items if i.kind != "use"]
        out = ["%smod %s {\n#[allow(unused_imports)]\nuse vstd::prelude::*;\n#[allow(unused_imports)]\nuse crate::vx::*;\n" % (vis, name)]
        for u in uses:
            out.append(emit_item(src, toks_pad, u, ov, modpath, deg, base, rep))
        out.append("verus! {\n")
        if ov.top.strip():
            out.append(ov.top)
        for i in rest:
            out.append(emit_item(src, toks_pad, i, ov, modpath, deg, base, rep))
        if ov.bottom.strip():
            out.append(ov.bottom)
        out.append("//@MODEND %s\n} // verus!\n}\n" % modpath)
        have = set(rep.fns) | {modpath + "::" + k[3:] for k in ov.drops if k.startswith("fn ")}
        for p, fo in ov.fns.items():
            if not p.startswith(("trait ", "impl ")) and modpath + "::" + p not in have:
                rep.lost.append((modpath + "::" + p, "function not found"))
        return "".join(out)

    body = "".join(leaf(n, s, repo_src, n, "pub ") for n, s in tree.items())
    vx = open(os.path.join(ovdir, "vx.rs")).read()
    text = ("// Generated by tools/vx.py from /repo/src. Do not edit.\n#![allow(unused)]\n"
            "#![allow(non_snake_case)]\n#![feature(allocator_api)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\n" + vx + "\n" + body + "\nfn main() {}\n")
    return text, rep


def fn_lines(text):
    """[(first line, last line, path)] of the generated text."""
    res, st = [], []
    for n, ln in enumerate(text.split("\n"), 1):
        if ln.startswith("//@FN "):
            st.append((n, ln[6:].strip()))
        elif ln.startswith("//@ENDFN"):
            a, p = st.pop()
            res.append((a, n, p))
    return res


if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    import tree as T
    text, rep = build(sys.argv[1] if len(sys.argv) > 1 else "/repo/src", T.TREE, os.path.join(here, "overlay"))
    open(sys.argv[2], "w").write(text)
    for x in rep.lost:
        print("LOST", x)
    for x in rep.hints.items():
        print("HINT", x)
