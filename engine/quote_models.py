"""Token streams: the text of the tokens quote! builds, one space after each token, with interpolated values as holes."""
import re
from terms import *
from interp import T, strip_refs, NeedSplit, Unsupported
from models import model, M, PM, SEQTYPES, is_str, ident, pay, variants
import iters

Q = "quote::__private::"

PUNCT = {
    "add": "+", "add_eq": "+=", "and": "&", "and_and": "&&", "and_eq": "&=", "at": "@", "bang": "!", "caret": "^", "caret_eq": "^=", "colon": ":", "colon2": "::",
    "comma": ",", "div": "/", "div_eq": "/=", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=", "eq": "=", "eq_eq": "==", "ge": ">=", "gt": ">", "le": "<=",
    "lt": "<", "mul_eq": "*=", "ne": "!=", "or": "|", "or_eq": "|=", "or_or": "||", "pound": "#", "question": "?", "rarrow": "->", "larrow": "<-", "rem": "%", "rem_eq": "%=",
    "fat_arrow": "=>", "semi": ";", "shl": "<<", "shl_eq": "<<=", "shr": ">>", "shr_eq": ">>=", "star": "*", "sub": "-", "sub_eq": "-=", "underscore": "_",
}

TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/
 |(?P<str>b?"(?:\\.|[^"\\])*"|r\#*".*?"\#*)
 |(?P<chr>'(?:\\.[^']*|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d\w*)?)
 |(?P<p>\.\.=|\.\.\.|<<=|>>=|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|\.\.|<<|>>|[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}])""", re.X | re.S)


def lex(s):
    """canonical token text of Rust source"""
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Unsupported("token text %r" % s[i:i + 40])
        if m.lastgroup:
            out.append(m.group(0))
        i = m.end()
    return out


def toks(s):
    return lstr("".join(x + " " for x in lex(s)))


def push(E, st, r, t):
    iters.store(E, st, r, cat(E.full(st, r), t))
    return [(st, UNIT)]


for _n, _p in PUNCT.items():
    def _f(E, st, c, _t=lstr(_p + " ")):
        return push(E, st, c.args[0], _t)
    M[Q + "push_" + _n] = _f
    M[Q + "push_" + _n + "_spanned"] = _f


def ident_text(v):
    """an identifier token whose text is v"""
    if v.op == "str" and re.fullmatch(r"(r#)?\w+", v.a[0]):
        return lstr(v.a[0] + " ")
    return mk("ident", v)


@model(Q + "push_ident", Q + "push_lifetime")
def push_ident(E, st, c):
    return push(E, st, c.args[0], ident_text_lit(E.full(st, c.args[1])))


def ident_text_lit(v):
    return lstr(v.a[0] + " ") if v.op == "str" else mk("ident", v)


@model(Q + "push_ident_spanned", Q + "push_lifetime_spanned")
def push_ident_spanned(E, st, c):
    return push(E, st, c.args[0], ident_text_lit(E.full(st, c.args[2])))


@model(Q + "parse")
def parse(E, st, c):
    v = E.full(st, c.args[1])
    return push(E, st, c.args[0], toks(v.a[0]) if v.op == "str" else mk("parsed", v))


DELIM = [("( ", ") "), ("{ ", "} "), ("[ ", "] "), ("", "")]


def delim(E, st, d):
    d = E.full(st, d)
    if d.op != "agg":
        raise Unsupported("delimiter %s" % show(d))
    name = E.adts[d.a[0]]["variants"][d.a[1]]["name"] if d.a[0] in E.adts else None
    i = {"Parenthesis": 0, "Brace": 1, "Bracket": 2, "None": 3}[name] if name else d.a[1]
    return DELIM[i]


@model(Q + "push_group")
def push_group(E, st, c):
    o, k = delim(E, st, c.args[1])
    return push(E, st, c.args[0], cat(lstr(o), E.full(st, c.args[2]), lstr(k)))


@model(Q + "push_group_spanned")
def push_group_spanned(E, st, c):
    o, k = delim(E, st, c.args[2])
    return push(E, st, c.args[0], cat(lstr(o), E.full(st, c.args[3]), lstr(k)))


@model("proc_macro2::TokenStream::new")
def ts_new(E, st, c):
    return [(st, lstr(""))]


@model("proc_macro2::TokenStream::is_empty")
def ts_empty(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "phi":
        raise NeedSplit("phi", v)
    if v.op == "str":
        return [(st, lbool(v.a[0] == ""))]
    if v.op == "cat" and any(x.op == "str" for x in v.a[0]):
        return [(st, FALSE)]
    return [(st, call("is_empty", v))]


@model("proc_macro2::Ident::new")
def ident_new(E, st, c):
    return [(st, mk("identv", E.full(st, c.args[0])))]


@model("proc_macro2::Ident::span", "proc_macro2::Span::call_site", "quote::__private::IdentFragmentAdapter::span", "quote::__private::get_span", "syn::spanned::Spanned::span")
def span(E, st, c):
    return [(st, NONE if "Adapter" in c.cn else UNIT)]


@model(Q + "mk_ident")
def mk_ident(E, st, c):
    return [(st, mk("identv", E.full(st, c.args[0])))]


NUMT = {"u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"}


def tokens_of(E, st, v, t):
    """the tokens a value of type t is interpolated as: [(state, text)]"""
    t = strip_refs(t)
    if t.a[0] == "alias":
        t = E.normalise(t)
    while t.a[0] == "adt" and (t.a[1].endswith("::RepInterp") or t.a[1] in ("alloc::boxed::Box", "alloc::rc::Rc")):
        if t.a[1].endswith("::RepInterp"):
            v = fld(E.deref(st, v), 0, 0)
        t = strip_refs(t.a[2][0])
    w = E.full(st, v)
    if t.a[0] == "adt":
        if t.a[1] == OPT:
            out = []
            for s, k in variants(E, st, v, OPT, 2):
                if k == 0:
                    out.append((s, lstr("")))
                else:
                    out.extend(tokens_of(E, s, fld(E.deref(s, v), 1, 0), t.a[2][0]))
            return out
        if t.a[1].rsplit("::", 1)[-1] == "TokenStream":
            return [(st, w)]
        if t.a[1].rsplit("::", 1)[-1] == "Ident":
            return [(st, ident_text(w.a[0]) if w.op == "identv" else mk("ident", call("text", w)))]
    if is_str(t):
        if w.op == "str":
            import json
            return [(st, mk("lit", w))]
        return [(st, mk("lit", w))]
    if t.a[0] == "prim" and t.a[1] == "bool":
        return [(st, lstr(("true " if w.a[0] else "false ")) if w.op == "bool" else mk("num", w, "bool"))]
    if t.a[0] == "prim" and t.a[1] in NUMT:
        if w.op == "int":
            return [(st, lstr("%d%s " % (w.a[0], t.a[1])))]
        return [(st, mk("num", w, t.a[1]))]
    return [(st, mk("tokens", w))]


@model("quote::to_tokens::ToTokens::to_tokens")
def to_tokens(E, st, c):
    out = []
    for s, x in tokens_of(E, st, c.args[0], c.targs[0]):
        s = s.copy()
        push(E, s, c.args[1], x)
        out.append((s, UNIT))
    return out


@model("quote::to_tokens::ToTokens::to_token_stream", "quote::to_tokens::ToTokens::into_token_stream")
def to_token_stream(E, st, c):
    return tokens_of(E, st, c.args[0], c.targs[0])


for _n in ("RepIteratorExt", "RepAsIteratorExt", "RepToTokensExt"):
    def _qi(E, st, c):
        it = iters.of(E, st, c.args[0]) if "RepToTokens" not in c.cn else None
        if it is not None:
            return [(s, tup(i, UNIT)) for s, i in iters.materialise(E, st, it, c)]
        return [(st, tup(c.args[0], UNIT))]
    M[Q + "ext::" + _n + "::quote_into_iter"] = _qi


@model(Q + "ext::RepToTokensExt::next")
def rep_tok_next(E, st, c):
    return [(st, some(c.args[0]))]


@model(Q + "RepInterp::next")
def rep_next(E, st, c):
    return [(st, some(fld(c.args[0], 0, 0)))]


@model(Q + "CheckHasIterator::check")
def has_it(E, st, c):
    return [(st, UNIT)]


M["core::ops::bit::BitOr::bitor"] = (lambda old: lambda E, st, c: [(st, UNIT)] if c.targs and c.targs[0] is not None and c.targs[0].a[0] == "adt" and "HasIterator" in c.targs[0].a[1] else (old(E, st, c) if old else None))(M.get("core::ops::bit::BitOr::bitor"))


# the adapter format_ident! displays its arguments through
def adapter_text(E, st, v, t):
    """text of an IdentFragmentAdapter<T>, or None"""
    t = strip_refs(t)
    if t.a[0] == "adt" and t.a[1] == "quote::__private::IdentFragmentAdapter":
        inner = strip_refs(t.a[2][0])
        x = fld(E.deref(st, v), 0, 0)
        x = E.full(st, x)
        if inner.a[0] == "adt" and inner.a[1].rsplit("::", 1)[-1] == "Ident":
            return x.a[0] if x.op == "identv" else call("text", x)
        return x
    return None


# typify's type space: what a schema is registered as is a function of the schema and the name asked for;
# the registration order (which only affects how clashing names are told apart) is abstracted away
def _pure(cn):
    def f(E, st, c):
        return [(st, call(cn, *[E.full(st, a) for a in c.args[1:]]))]
    M[cn] = f


for _n in ("typify::TypeSpace::add_type_with_name", "typify::TypeSpace::add_type", "typify::TypeSpace::get_type"):
    _pure(_n)


@model("typify::TypeSpace::add_ref_types")
def add_ref_types(E, st, c):
    """the named types handed over, as a sequence; what converting their schemas gives is left open"""
    from iters import recv, drive, push_item, isit
    it = recv(E, st, c, 1)
    if it is None or not isit(it):
        return None
    acc = E.alloc(st, mk("seq", ()))
    out = []
    before = E.opaque_bodies
    E.opaque_bodies = set(before) | {i for im in E.impls if im["trait"] and im["trait"].rsplit("::", 1)[-1] in ("ToSchema", "Convert") for i in im["items"].values()}
    try:
        outs = drive(E, st, c, it, lambda s, x: [(push_item(E, s, acc, x, False), None)], (acc,))
    finally:
        E.opaque_bodies = before
    for s, _ in outs:
        out.extend(E.opaque(s, c.cn, (c.args[0], s.store[acc]), c.fr, c))
    return out
