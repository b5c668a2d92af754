"""Specifications of the generator's remaining properties: documents, bodies, templates, schemas, settings."""
from specs_gen import *
import iters


def impl_item(g, trait, adt, name):
    c = [im["items"][name] for im in g.E.impls if im["trait"] and im["trait"].rsplit("::", 1)[-1] == trait and im["self"].a[0] == "adt" and im["self"].a[1] == adt and name in im["items"]]
    if len(c) != 1:
        raise Missing("%s of %s for %s: %d definitions" % (name, trait, adt.rsplit("::", 1)[-1], len(c)))
    return c[0]


def last(name):
    return name.rsplit("::", 1)[-1]


def is_call(t, *names):
    return t.op == "call" and last(t.a[0]) in names


# ---------------------------------------------------------------- G07
CONTENT = {"application/octet-stream": "OctetStream", "application/json": "Json", "application/x-www-form-urlencoded": "FormUrlencoded",
           "text/plain": "Text", "text/x-markdown": "Text"}


def before_semicolon(t, s, f):
    """does t denote the text of s up to its first semicolon (all of it without one)?"""

    def some(x, *names):
        return x.op == "fld" and x.a[1:] == (1, 0) and is_call(x.a[0], *names)

    def has_none():
        for a, v in f.items():
            if a.op == "var" and is_call(a.a[0], "find", "split_once") and a.a[0].a[1][0] is s and is_semi(a.a[0].a[1][1]) and v == 0:
                return True
            if is_call(a, "contains") and a.a[1][0] is s and is_semi(a.a[1][1]) and v is False:
                return True
        return False
    if t is s:
        return has_none()
    if is_call(t, "index") and t.a[1][0] is s:
        r = t.a[1][1]
        if r.op == "agg" and r.a[0].endswith("RangeFull"):
            return has_none()
        if r.op != "agg" or not r.a[0].rsplit("::", 1)[-1].startswith("Range"):
            return False
        xs = list(r.a[2])
        if last(r.a[0]) == "Range":
            if xs[0] is not lint(0):
                return False
            xs = xs[1:]
        elif last(r.a[0]) != "RangeTo":
            return False
        x = xs[0]
        if some(x, "find") and x.a[0].a[1][0] is s and is_semi(x.a[0].a[1][1]):
            return True
        return is_call(x, "len") and x.a[1][0] is s and has_none()
    if t.op == "fld" and t.a[1:] == (0, 0) and some(t.a[0], "split_once"):
        c = t.a[0].a[0]
        return c.a[1][0] is s and is_semi(c.a[1][1])
    if t.op == "fld" and t.a[1:] == (0, 0) and is_call(t.a[0], "split_at"):
        return False
    if some(t, "next"):
        x = t.a[0].a[1][0]
        while x.op in ("iter",):
            x = x.a[0]
        return is_call(x, "split", "splitn", "split_terminator") and contains(x, lambda y: y is s) and any(is_semi(y) for y in x.a[1])
    if t.op == "someitem" or t.op == "fld":
        b = t.a[0]
        if b.op == "iter" and is_call(b.a[0], "split", "splitn") and b.a[0].a[1][0] is s and any(is_semi(y) for y in b.a[0].a[1]):
            return t.op == "someitem"
    return False


def is_semi(t):
    return t.op in ("str", "char") and t.a[0] == ";"


def g07(g, rep):
    OP = Param(g)
    B = OP.B
    fs = impl_item(g, "FromStr", B, "from_str")
    w = g.where(fs)
    g.opaque()
    s = sym("s")
    bad, seen = None, set()
    nerr = 0
    for o in g.run(fs, [s]):
        hits = {}
        for a, v in o.facts.items():
            if a.op == "ieq":
                x, y = a.a
                lit = x if x.op == "str" else y
                t = y if lit is x else x
                if lit.op == "str" and before_semicolon(t, s, o.facts):
                    hits[lit_value(lit)] = v
                elif lit.op == "str":
                    bad = bad or "the content type is recognised from %s" % show(t)[:200]
        yes = [k for k, v in hits.items() if v]
        if ok_value(o.ret) is None:
            nerr += 1
            missing = [k for k in CONTENT if hits.get(k) is not False]
            if missing and not (yes and yes[0] not in CONTENT):
                bad = bad or "%s is refused when %s" % (missing, cond(o.facts)[:400])
            continue
        v = ok_value(o.ret)
        if len(yes) != 1 or yes[0] not in CONTENT:
            bad = bad or "a content type that is none of the supported ones becomes %s (when %s)" % (show(v)[:100], cond(o.facts)[:400])
            continue
        seen.add(yes[0])
        want = CONTENT[yes[0]]
        if v.op != "agg" or v.a[1] != g.vi(B, want):
            bad = bad or "%s becomes %s" % (yes[0], show(v)[:100])
        elif want == "Text" and not (before_semicolon(v.a[2][0], s, o.facts) or v.a[2][0] is lstr(yes[0])):
            bad = bad or "%s is relabelled %s" % (yes[0], show(v.a[2][0])[:100])
    need(rep, "G07:recognise", bad is None, "a content type (without its parameters) selects the body form it names, and any other is refused", w, bad)
    for c in CONTENT:
        need(rep, "G07:recognise:%s" % c, c in seen, "%s is accepted" % c, w, "no outcome accepts it")
    need(rep, "G07:refuse", nerr > 0, "other content types are refused", w, "nothing is refused")
    body_param(g, rep, OP, fs)
    body_sent(g, rep, OP)


def ok_value(r):
    return fld(r, 0, 0) if r.op == "agg" and r.a[0] == RES and r.a[1] == 0 else None


def len_facts(f, c):
    """the lengths 0..4 of the collection c that the facts allow"""
    p = "indexmap::map::IndexMap::"
    L = [t for a in f for t in subterms(a) if is_call(t, "len") and t.a[1][0] is c]
    env = [n for n in range(0, 5)]
    out = []
    for n in env:
        ok_ = True
        for a, v in f.items():
            if any(contains(a, lambda x: x is l) for l in L):
                r = conc(a, {l: n for l in L})
                if r is not None and r != v:
                    ok_ = False
            elif is_call(a, "is_empty") and a.a[1][0] is c and v != (n == 0):
                ok_ = False
            elif a.op == "var" and is_call(a.a[0], "first", "last", "next") and (a.a[0].a[1][0] is c or is_call(a.a[0].a[1][0], "iter", "keys", "into_iter") and a.a[0].a[1][0].a[1][0] is c) and v != (n > 0):
                ok_ = False
        if ok_:
            out.append(n)
    return out


def only_entry(t, c):
    """is t the first entry of the map c?"""
    if t.op != "fld" or t.a[1:] != (1, 0) or t.a[0].op != "call":
        return False
    x = t.a[0]
    if last(x.a[0]) in ("first", "last") and x.a[1][0] is c:
        return True
    if last(x.a[0]) == "get_index" and x.a[1][0] is c and x.a[1][1] is lint(0):
        return True
    return last(x.a[0]) == "next" and any(is_call(y, "iter", "into_iter") and y.a[1][0] is c for y in subterms(x))


def body_param(g, rep, OP, fs):
    b = g.method(g.adt("Generator"), "get_body_param")[0]
    w = g.where(b)
    g.opaque(free=("sanitize",), traits=("ToSchema", "Convert", "ReferenceOrExt", "FromStr"))
    RB, MT = g.A("RequestBody"), g.A("MediaType")
    SC, SD, SK, TY, ST = g.A("Schema"), g.A("SchemaData"), g.A("SchemaKind"), g.A("Type"), g.A("StringType")
    VU, SF = g.A("VariantOrUnknownOrEmpty"), g.A("StringFormat")
    op, comps = sym("op"), sym("components")
    rb = g.get(op, g.A("Operation"), "request_body")
    bad, seen, nnone, nerr = None, {}, 0, 0
    for o in g.run(b, [sym("gen"), op, comps]):
        v = ok_value(o.ret)
        f = o.facts
        if v is None:
            nerr += 1
            continue
        items = [t for t in all_facts_terms(f) if is_call(t, "item") and t.a[1][0] is fld(rb, 1, 0)]
        content = g.get(fld(items[0], 0, 0), RB, "content") if items else None
        if v is NONE:
            nnone += 1
            if f.get(var(rb)) != 0 and not (content is not None and len_facts(f, content) == [0]):
                bad = bad or "there is no body argument when %s" % cond(f)[:500]
            continue
        if not (is_agg(v, OPT) and v.a[1] == 1) or f.get(var(rb)) != 1 or content is None or f.get(var(items[0])) != 0:
            bad = bad or "a body appears from %s" % show(v)[:300]
            continue
        p = fld(v, 1, 0)
        if len_facts(f, content) != [1]:
            bad = bad or "a body with several content types is accepted as if it had one (when %s)" % cond(f)[:500]
            continue
        kind = g.get(p, OP.adt, "kind")
        if not (is_agg(kind, OP.K) and kind.a[1] == OP.Body):
            bad = bad or "the body parameter is of kind %s" % show(kind)[:200]
            continue
        ct = fld(kind, OP.Body, 0)
        src_ = [t for t in all_facts_terms(f) if t.op == "call" and t.a[0] == fs]
        if len(set(src_)) != 1 or f.get(var(src_[0])) != 0 or not eqv(ct, fld(src_[0], 0, 0), f):
            bad = bad or "the body's content type is %s" % show(ct)[:300]
            continue
        key = src_[0].a[1][0]
        if not (key.op == "fld" and key.a[1:] == (0, 0) and only_entry(key.a[0], content)):
            bad = bad or "the content type is recognised from %s" % show(key)[:300]
            continue
        c = f.get(var(fld(src_[0], 0, 0)))
        if c is None:
            bad = bad or "the body's type does not depend on its content type"
            continue
        media = fld(key.a[0], 0, 1)
        sch = g.get(media, MT, "schema")
        if f.get(var(sch)) != 1:
            bad = bad or "a body without a schema is accepted"
            continue
        typ = g.get(p, OP.adt, "typ")
        if not (is_agg(typ, OP.T)):
            bad = bad or "the type of the body is %s" % show(typ)[:200]
            continue
        name, api = g.get(p, OP.adt, "name"), g.get(p, OP.adt, "api_name")
        if name is not lstr("body"):
            bad = bad or "the body argument is called %s" % show(name)[:100]
        if c in (OP.Json, OP.Form):
            if typ.a[1] != OP.Type or not any(is_call(t, "to_schema") and t.a[1][0] is fld(sch, 1, 0) for t in subterms(typ)):
                bad = bad or "the type of a %s body is %s" % ("JSON" if c == OP.Json else "form", show(typ)[:300])
            enc = g.get(media, MT, "encoding")
            if len_facts(f, enc) != [0]:
                bad = bad or "a body with property encodings is accepted although they are not honoured"
        else:
            if typ.a[1] != OP.Raw:
                bad = bad or "the type of a raw body is %s" % show(typ)[:300]
            ss = [t for t in all_facts_terms(f) if is_call(t, "item") and t.a[1][0] is fld(sch, 1, 0)]
            if not ss or f.get(var(ss[0])) != 0:
                bad = bad or "the schema of a raw body is not examined"
                continue
            x = fld(ss[0], 0, 0)
            sd, sk = g.get(x, SC, "schema_data"), g.get(x, SC, "schema_kind")
            ty = fld(sk, g.vi(SK, "Type"), 0)
            st = fld(ty, g.vi(TY, "String"), 0)
            fmt = g.get(st, ST, "format")
            item = fld(fmt, g.vi(VU, "Item"), 0)
            want = [("a non-string schema", var(sk), g.vi(SK, "Type")), ("a non-string schema", var(ty), g.vi(TY, "String")),
                    ("a nullable schema", g.get(sd, SD, "nullable"), False), ("a default", var(g.get(sd, SD, "default")), 0), ("a discriminator", var(g.get(sd, SD, "discriminator")), 0),
                    ("a pattern", var(g.get(st, ST, "pattern")), 0), ("a minimum length", var(g.get(st, ST, "min_length")), 0), ("a maximum length", var(g.get(st, ST, "max_length")), 0)]
            if c == OP.Octet:
                want += [("a format other than binary", var(fmt), g.vi(VU, "Item")), ("a format other than binary", var(item), g.vi(SF, "Binary"))]
            else:
                want += [("a format", var(fmt), g.vi(VU, "Empty"))]
            for what, a, val in want:
                if f.get(a) != val:
                    bad = bad or "a %s body with %s is accepted as unconstrained" % ("binary" if c == OP.Octet else "text", what)
            en = g.get(st, ST, "enumeration")
            if not any((is_call(a, "is_empty") and a.a[1][0] is en and val is True) for a, val in f.items()) and len_facts(f, en) != [0]:
                bad = bad or "a %s body with an enumeration is accepted as unconstrained" % ("binary" if c == OP.Octet else "text")
        seen[c] = seen.get(c, 0) + 1
    need(rep, "G07:declared", bad is None, "the operation has a body of the declared content type exactly when one is declared; several content types, encodings and constrained raw schemas are refused", w, bad)
    need(rep, "G07:declared:none", nnone > 0, "an operation without a body has no body argument", w, "never")
    need(rep, "G07:declared:refused", nerr > 0, "some bodies are refused", w, "never")
    for i, v in enumerate(g.E.adts[OP.B]["variants"]):
        need(rep, "G07:declared:%s" % v["name"], seen.get(i), "bodies of kind %s are accepted" % v["name"], w, "never")


def body_sent(g, rep, OP):
    w = g.sig_where()
    forms = {OP.Json: (OP.Type, ". json ( & $body )"), OP.Form: (OP.Type, ". form_urlencoded ( & $body ) ?"), OP.Octet: (OP.Raw, None), OP.Text: (OP.Raw, None)}
    for cfg in CONFIGS:
        m, rs = requests(g, cfg)
        tag = "+".join(cfg) or "plain"
        for rq in rs:
            per, fixed, hm, other = sent_parts(rq)
            for c, (typ, pat) in sorted(forms.items()):
                base = {var(OP.kind): OP.Body, var(fld(OP.kind, OP.Body, 0)): c, var(OP.typ): typ}
                if pat is None:
                    ct = lstr("application/octet-stream") if c == OP.Octet else fld(fld(OP.kind, OP.Body, 0), OP.Text, 0)
                    pat = (". header ( reqwest :: header :: CONTENT_TYPE , reqwest :: header :: HeaderValue :: from_static ( {0} ) ) . body ( $body )", mk("lit", ct))
                g.emission(rep, "G07:sent:%s:%s" % (g.E.adts[OP.B]["variants"][c]["name"], tag), w, "a body is sent in the form, and with the label, of its content type", text_or_none(per), lambda ask: pat, base)


def lit_value(t):
    return t.a[0] if t.op == "str" else None


# ---------------------------------------------------------------- the operations of a document
class Walk:
    """recognises the iteration over the operations of a document, however it is written"""

    def __init__(self, g, spec):
        self.g = g
        D = g.A("OpenAPI")
        self.paths = g.get(spec, D, "paths")
        self.inner = fld(self.paths, 0, 0)
        self.RO = g.A("ReferenceOr")
        self.item_v = g.vi(self.RO, "Item")
        self.OP = g.A("Operation")

    def is_paths(self, src):
        """is src the iteration over the paths of the document?"""
        if src.op != "iter":
            return False
        x = src.a[0]
        while is_call(x, "iter", "into_iter", "deref", "as_ref", "borrow"):
            x = x.a[1][0]
        return x is self.paths or x is self.inner

    def item(self, t):
        """the entry of the paths whose path item t is, else None"""
        if t.op == "fld" and t.a[1:] == (1, 0) and is_call(t.a[0], "as_item", "into_item"):
            e = t.a[0].a[1][0]
        elif t.op == "fld" and t.a[1:] == (self.item_v, 0):
            e = t.a[0]
        else:
            return None
        return e.a[0] if e.op == "fld" and e.a[1:] == (0, 1) else None

    def is_ops(self, src):
        """the entry of the paths src iterates over the operations of, else None"""
        if src.op != "iter":
            return None
        x = src.a[0]
        while is_call(x, "iter", "into_iter", "deref", "as_ref", "borrow"):
            x = x.a[1][0]
        return self.item(x)

    def path_entry(self, t):
        return t.op == "someitem" and self.is_paths(t.a[0])

    def op_entry(self, t):
        if t.op != "someitem":
            return False
        e = self.is_ops(t.a[0])
        return e is not None and self.path_entry(e)

    def refersto(self, a, v):
        """(entry, is it an item?) when the fact a=v says whether an entry of the paths is a reference"""
        if a.op != "var":
            return None
        t = a.a[0]
        if is_call(t, "as_item", "into_item"):
            e = t.a[1][0]
            v = v == 1
        else:
            e = t
            v = v == self.item_v
        if e.op == "fld" and e.a[1:] == (0, 1) and self.path_entry(e.a[0]):
            return e.a[0], v
        return None


def accumulated(w, s, opid):
    """does the set s hold exactly the identifiers of the operations walked so far?"""
    def strip(x):
        while x.op == "during":
            x = x.a[0]
        return x

    def go(s, acc):
        s = strip(s)
        if s is acc:
            return "acc"
        if is_call(s, "new", "with_capacity", "default", "with_hasher") and all(x.op in ("int", "call") for x in s.a[1]):
            return "empty"
        if s.op == "upd" and last(s.a[0]) == "insert" and len(s.a[3]) == 1:
            r = go(s.a[2], acc)
            return (r, s.a[3][0]) if r in ("acc", "empty") else None
        if s.op != "fold":
            return None
        src, b, init, step = s.a
        i = go(init, acc)
        if i not in ("acc", "empty", "all"):
            return None
        ac = [x for x in subterms(step) if x.op == "acc"]
        for a in ac:
            r = go(step, a)
            if w.is_paths(src) and r == "ops" and contains_item(step, b):
                return "all" if i == "empty" else None
            if w.is_ops(src) is not None and isinstance(r, tuple) and r[0] == "acc" and opid(r[1], b):
                return "ops" if i in ("acc",) else ("all" if i == "all" else None)
        return None

    def contains_item(step, b):
        return any(x.op == "iter" and w.is_ops(x) is b for x in subterms(step))
    return go(s, None) == "all"


# ---------------------------------------------------------------- G01
def version_fact(a, v, spec_version):
    """True/False when the fact says that the document's version is (not) 3.0.x"""
    def text(x):
        while is_call(x, "trim", "trim_start", "as_str", "deref"):
            x = x.a[1][0]
        return x is spec_version
    if is_call(a, "starts_with") and text(a.a[1][0]) and a.a[1][1] is lstr("3.0."):
        return bool(v)
    if a.op == "var" and is_call(a.a[0], "strip_prefix") and text(a.a[0].a[1][0]) and a.a[0].a[1][1] is lstr("3.0."):
        return v == 1
    return None


def g01(g, rep):
    V = g.free_fn("validate_openapi")
    vcall = call(V, sym("spec"))
    G = g.adt("Generator")
    # every generator checks the document before anything else
    g.opaque(free=("validate_openapi", "sanitize"), gen=[n for n in ("process_operation", "generate_tokens_positional_merged", "generate_tokens_builder_merged", "generate_tokens_builder_separate", "cli_method", "httpmock_method") if g.inherent(G, n)])
    for n, extra in (("generate_tokens", []), ("cli", [sym("crate_path")]), ("httpmock", [sym("crate_path")])):
        b = g.method(G, n)[0]
        g.E.panics = []
        outs = g.run(b, [g.struct("Generator", "g"), sym("spec")] + extra)
        okd = [o for o in outs if o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 0]
        bad = None if okd else "it never succeeds"
        refused = 0
        for o in outs:
            v = o.facts.get(var(vcall))
            if v is None:
                bad = bad or "with %s it returns %s without checking the document" % (cond(o.facts)[:150], show(o.ret)[:100])
            elif v == 1:
                refused += 1
                if not (o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 1):
                    bad = bad or "it generates code from a document that was refused"
        need(rep, "G01:first:%s" % n, bad is None and refused > 0, "%s checks the document before anything else and fails when it is refused" % n, g.where(b), bad or "a refused document is accepted")
        bad = None
        for p in g.E.panics:
            if p["facts"].get(var(vcall)) != 0:
                bad = bad or "%s:%s may panic (%s) before the document was checked" % (p["file"], p["line"], p["what"])
        need(rep, "G01:first:%s:panic" % n, bad is None, "%s refuses a document with an error, not a panic" % n, g.where(b), bad)

    # what is refused
    g.opaque()
    spec = sym("spec")
    w = Walk(g, spec)
    outs = g.run(V, [spec])
    where = g.where(V)
    ver = g.get(spec, g.A("OpenAPI"), "openapi")
    oi = g.fi(w.OP, "operation_id")

    def atom(a, v):
        """(what the fact is about, its value)"""
        if a.op == "var" and is_call(a.a[0], "next") or (a.op == "var" and a.a[0].op == "call" and a.a[0].a[0] == "next"):
            return None
        r = version_fact(a, v, ver)
        if r is not None:
            return ("version", r)
        r = w.refersto(a, v)
        if r is not None:
            return ("item", r[1])
        if a.op == "var" and a.a[0].op == "fld" and a.a[0].a[1:] == (0, oi) and is_op(a.a[0].a[0]):
            return ("id", v == 1)
        for name, dup in (("insert", False), ("contains", True), ("contains_key", True)):
            if is_call(a, name) and len(a.a[1]) == 2:
                s, k = a.a[1]
                if k.op == "fld" and k.a[1:] == (1, 0) and k.a[0].op == "fld" and k.a[0].a[1:] == (0, oi) and is_op(k.a[0].a[0]):
                    if accumulated(w, s, lambda x, b: x is fld(fld(fld(b, 0, 1), 0, oi), 1, 0)):
                        return ("dup", bool(v) == dup)
        return (a, v)

    def is_op(t):
        return t.op == "fld" and t.a[1:] == (0, 1) and w.op_entry(t.a[0])

    leaves = []
    bad = None
    for o in outs:
        f = {}
        for a, v in o.facts.items():
            r = atom(a, v)
            if r is not None:
                f[r[0]] = r[1]
        isok = o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 0
        iserr = o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 1
        if not isok and not iserr:
            bad = bad or "it returns %s" % show(o.ret)[:120]
        leaves.append((f, isok))
    need(rep, "G01:decides", bad is None, "the document is accepted or refused", where, bad)
    REQ = [("version", dict(version=False), "a version that is not 3.0.x is refused"),
           ("reference", dict(version=True, item=False), "a path that is a reference is refused"),
           ("id", dict(version=True, item=True, id=False), "an operation without an identifier is refused"),
           ("unique", dict(version=True, item=True, id=True, dup=True), "an operation that repeats the identifier of another, anywhere in the document, is refused")]
    for key, req, desc in REQ:
        bad = None
        extra = sorted({a for f, _ in leaves for a in f if not isinstance(a, str)}, key=lambda t: t.k if hasattr(t, "k") else str(t))
        errs = [f for f, isok in leaves if not isok]
        if not covered(req, errs, extra):
            near = [f for f in errs if all(f.get(k, v) == v for k, v in req.items()) and all(k in f for k in req)]
            bad = "refused only if also %s" % [(show(a)[:160], v) for f in near for a, v in f.items() if not isinstance(a, str)] if near else "no error is returned"
        need(rep, "G01:refuses:%s" % key, bad is None, desc, where, bad)
    bad = None
    for f, isok in leaves:
        if not isok and not any(all(f.get(k) == v for k, v in req.items()) for _, req, _ in REQ):
            bad = bad or "refused because %s" % [(a if isinstance(a, str) else show(a)[:160], v) for a, v in f.items()]
    need(rep, "G01:accepts", bad is None, "no other document is refused by the check", where, bad)
    bad = None
    oks = [f for f, isok in leaves if isok]
    if not oks:
        bad = "no document is accepted"
    for f in oks:
        if f.get("version") is not True:
            bad = bad or "accepted with %s" % [(a if isinstance(a, str) else show(a)[:100], v) for a, v in f.items()]
    need(rep, "G01:accepts:version", bad is None, "only documents of version 3.0.x are accepted", where, bad)


def covered(req, leaves, extra):
    """is every case satisfying req among the leaves, whatever the other facts are?"""
    import itertools
    ls = [f for f in leaves if all(f.get(k, v) == v for k, v in req.items()) and all(k in req or not isinstance(k, str) for k in f)]
    if any(all(k in req for k in f) for f in ls):
        return True
    atoms = [a for a in extra if any(a in f for f in ls)]
    if len(atoms) > 8:
        return False
    doms = [sorted({f[a] for f in ls if a in f}, key=str) + ["other"] if not all(isinstance(f[a], bool) for f in ls if a in f) else [False, True] for a in atoms]
    for vs in itertools.product(*doms):
        m = dict(zip(atoms, vs))
        if not any(all(m.get(k) == v for k, v in f.items() if k not in req) for f in ls):
            return False
    return True


# ---------------------------------------------------------------- G11
M = sym("m")


class Ops:
    """repetitions over the operations of the document"""

    def __init__(self, g, spec):
        self.g, self.spec = g, spec
        self.w = Walk(g, spec)
        self.po = g.method(g.adt("Generator"), "process_operation")[0]
        D = g.A("OpenAPI")
        self.components = g.get(spec, D, "components")
        self.pp = g.fi(g.A("PathItem"), "parameters")
        self.why = None

    def mentions(self, t):
        return contains(t, lambda x: x.op == "call" and x.a[0] == self.po)

    def per_op(self, t):
        """what the repetition produces for the operation M, as text or as a list of elements, else None"""
        self.why = None

        def no(s):
            self.why = self.why or s
            return None
        if t.op == "seq" and len(t.a[0]) == 1:
            t = t.a[0][0]
        if t.op != "star" or not self.w.is_paths(t.a[0]):
            return no("it does not repeat over the document's paths: %s" % show(t)[:150])
        b1, x = t.a[1], t.a[2]
        if x.op == "seq" and len(x.a[0]) == 1:
            x = x.a[0][0]
        if x.op != "star" or self.w.is_ops(x.a[0]) is not b1:
            return no("it does not repeat over every operation of every path: %s" % show(x)[:150])
        b2, body = x.a[1], x.a[2]
        item = None
        y = x.a[0].a[0]
        while is_call(y, "iter", "into_iter", "deref", "as_ref", "borrow"):
            y = y.a[1][0]
        item = y
        rep = {}
        for c in subterms(body):
            if c.op == "call" and c.a[0] == self.po:
                a = c.a[1]
                ok = len(a) == 6 and a[1] is fld(b2, 0, 1) and a[2] is self.components and a[3] is fld(b1, 0, 0) and a[4] is fld(b2, 0, 0) and a[5].op == "fld" and a[5].a[1:] == (0, self.pp) and self.w.item(a[5].a[0]) is b1
                if not ok:
                    return no("an operation is processed with %s" % [show(z)[:80] for z in a[1:]])
                rep[fld(c, 0, 0)] = M
        body = replace(body, rep)
        if self.mentions(body) or contains(body, lambda z: z is b1 or z is b2):
            # the state of the generator along the way does not matter
            left = [z for z in subterms(body) if z is b1 or z is b2]
            body2 = rebuild_calls(body)
            if self.mentions(body2) or contains(body2, lambda z: z is b1 or z is b2):
                return no("what is generated depends on more than the operation: %s" % show(left[0] if left else body)[:100])
            body = body2
        return body


def replace(t, m, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = m.get(t)
        if r is None:
            r = rebuild(t, lambda x: replace(x, m, memo))
            r = m.get(r, r)
        memo[t] = r
    return r


ANYGEN = sym("the generator")


def rebuild_calls(t, memo=None):
    """calls of the generator's own methods without the state they are called in"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: rebuild_calls(x, memo))
        if r.op == "call" and isinstance(r.a[0], str) and r.a[1] and (r.a[1][0].op in ("upd", "fold", "at", "during", "acc", "loopvar") or (r.a[1][0].op in ("agg", "with", "sym"))) and last(r.a[0]) in GENERATOR_METHODS:
            r = call(r.a[0], ANYGEN, *r.a[1][1:])
        memo[t] = r
    return r


GENERATOR_METHODS = ("positional_method", "builder_struct", "cli_method", "httpmock_method", "builder_helper", "builder_impl")


def header(ns, i):
    """the tokens introducing the group at position i"""
    out = []
    j = i - 1
    while j >= 0:
        x = ns[j]
        if x == ("t", ";") or (x[0] == "g" and x[1] == "{") or x[0] == "h" and x[1].op in ("star", "phi", "join"):
            break
        out.append(x)
        j -= 1
    out.reverse()
    # attributes
    k = 0
    res = []
    while k < len(out):
        if out[k] == ("t", "#"):
            k += 1
            if k < len(out) and out[k] == ("t", "!"):
                k += 1
            k += 1
            continue
        res.append(out[k])
        k += 1
    return res


def find_holes(ns, pred, path=()):
    """[(headers of the enclosing blocks, hole term)]"""
    out = []
    for i, x in enumerate(ns):
        if x[0] == "g":
            h = render(header(ns, i)) if x[1] == "{" else x[1]
            out.extend(find_holes(x[2], pred, path + (h,)))
        elif x[0] == "h" and pred(x[1]):
            out.append((path, x[1]))
    return out


def simple_name(g, t, oi):
    """the identifier sanitize gives an operation's own name again is that name"""
    f = g.fn("sanitize")
    C = g.adt("Case")
    return replace(t, {call(f, oi, agg(C, g.vi(C, "Snake"), ())): oi})


def g11(g, rep):
    G = g.adt("Generator")
    spec = sym("spec")
    X = Ops(g, spec)
    OM = g.adt("OperationMethod")
    OID = g.get(M, OM, "operation_id")
    TAGS = g.get(M, OM, "tags")
    C = g.adt("Case")
    pascal = lambda t: call(g.fn("sanitize"), t, agg(C, g.vi(C, "Pascal"), ()))
    snake = lambda t: call(g.fn("sanitize"), t, agg(C, g.vi(C, "Snake"), ()))
    I, TS = g.adt("InterfaceStyle"), g.adt("TagStyle")
    FREE = ("validate_openapi", "sanitize", "make_doc_comment", "make_stream_doc_comment")

    # ---- the name of an operation
    bad = None
    for f, v in op_values(g, "operation_id"):
        w = snake(fld(g.get(sym("op"), g.A("Operation"), "operation_id"), 1, 0))
        if v is not w:
            bad = bad or "it is %s" % show(v)[:150]
    need(rep, "G11:name", bad is None, "an operation is known by its identifier in snake case", g.op_where(), bad)
    bad = None
    for f, v in op_values(g, "tags"):
        if v is not g.get(sym("op"), g.A("Operation"), "tags"):
            bad = bad or "they are %s" % show(v)[:150]
    need(rep, "G11:tags", bad is None, "an operation has the tags the document gives it", g.op_where(), bad)

    # ---- the client
    b = g.method(G, "generate_tokens")[0]
    w = g.where(b)
    g.opaque(free=FREE, gen=("process_operation", "positional_method", "builder_struct"))
    gen = g.struct("Generator", "g", settings=g.settings())
    outs = g.run(b, [gen, spec])
    si = g.get(g.get(gen, G, "settings"), g.adt("GenerationSettings"), "interface")
    st = g.get(g.get(gen, G, "settings"), g.adt("GenerationSettings"), "tag")
    seen = {}
    for o in outs:
        if o.ret.op != "agg" or o.ret.a[0] != RES or o.ret.a[1] != 0:
            continue
        i, t = o.facts.get(var(si)), o.facts.get(var(st))
        ns = tree(tidy(resolve(fld(o.ret, 0, 0), o.facts)))
        found = find_holes(ns, X.mentions)
        # what the operations leave in the generator is not code for an operation
        found = [(p, t_) for p, t_ in found if not is_call(t_, "to_stream")]
        for ii in ((i,) if i is not None else range(len(g.E.adts[I]["variants"]))):
            for tt in ((t,) if t is not None else range(len(g.E.adts[TS]["variants"]))):
                style = (g.E.adts[I]["variants"][ii]["name"], g.E.adts[TS]["variants"][tt]["name"])
                r = STYLES[style](g, X, found, o.facts) if style in STYLES else "no such interface style"
                seen.setdefault(style, []).append(r)
    for style in STYLES:
        rs = seen.get(style)
        bad = "it is never generated" if not rs else next((r for r in rs if r), None)
        need(rep, "G11:client:%s:%s" % style, bad is None, "the client has exactly one method for every operation of the document (%s, %s)" % style, w, bad)

    # ---- what stands for one operation
    pb, m, alts = interface(g, "positional_method")
    bad = None if alts else "nothing is generated"
    oid = g.get(m, OM, "operation_id")
    for f, ns in alts:
        x = match(fill("$$a pub async fn {0} < 'a > ( $$x ) -> $$b { $$c } $$d", call("x")), ns, None, f)
        names = fn_names(ns)
        want = [[("h", mk("ident", oid))], [("h", mk("ident", oid)), ("h", mk("ident", cat(oid, lstr("_stream"))))]]
        if names not in want:
            bad = bad or "it is called %s" % [render([n]) for n in names]
    need(rep, "G11:positional:name", bad is None, "the method is named after the operation", g.where(pb), bad)
    bb, m, params, alts = builder(g)
    bad = None if alts else "nothing is generated"
    for f, x, ns, sig in alts:
        if x is None or x["name"] != ("h", mk("ident", replace(pascal(oid), {}))):
            bad = bad or "it is called %s" % (render([x["name"]]) if x else render(ns)[:100])
    need(rep, "G11:builder:name", bad is None, "the builder is named after the operation, as the method returning it expects", g.where(bb), bad)

    g11_cli(g, rep, X, OID, pascal, FREE)
    g11_mock(g, rep, X, OID, FREE)


def fn_names(ns):
    """the functions defined in a run of tokens"""
    return [ns[i + 1] for i in range(len(ns) - 1) if ns[i] == ("t", "fn")]


def client_fn(g):
    """the client method that returns the builder of M"""
    C = g.adt("Case")
    oid = g.get(M, g.adt("OperationMethod"), "operation_id")
    name = mk("ident", oid)
    st = mk("ident", call(g.fn("sanitize"), oid, agg(C, g.vi(C, "Pascal"), ())))
    return fill("fn {0} ( & self ) -> builder :: {1}", name, st), fill("builder :: {0} :: new ( self )", st)


def undoc(ns):
    """without the attributes in front"""
    while len(ns) >= 2 and ns[0] == ("t", "#") and ns[1][0] == "g":
        ns = ns[2:]
    return ns


def is_fn(g, ns, public):
    sig, body = client_fn(g)
    ns = undoc(ns)
    pre = [("t", "pub")] if public else []
    return same_nodes(ns, pre + sig + [("g", "{", body)])


def same_nodes(a, b):
    return len(a) == len(b) and all(same(x, y, {}) for x, y in zip(a, b))


def is_struct(g, t):
    return t.op == "fld" and t.a[1:] == (0, 0) and is_call(t.a[0], "builder_struct") and t.a[0].a[1][1] is M


def one_of(found, pred):
    return [x for x in found if pred(x[0])]


def builders(g, X, found):
    """(problem, the rest)"""
    mine = [x for x in found if x[0] and x[0][-1] == "pub mod builder"]
    rest = [x for x in found if x not in mine]
    if len(mine) != 1:
        return "the builders of the operations are generated %d times" % len(mine), rest
    t = X.per_op(mine[0][1])
    if t is None:
        return X.why, rest
    ns = tree(t)
    if len(ns) != 1 or ns[0][0] != "h" or not is_struct(g, ns[0][1]):
        return "for an operation the builder module has %s" % render(ns)[:200], rest
    return None, rest


def positional_merged(g, X, found, facts):
    if len(found) != 1 or found[0][0][-1:] != ("impl Client",):
        return "operations appear in %s" % [p for p, _ in found]
    t = X.per_op(found[0][1])
    if t is None:
        return X.why
    ns = tree(t)
    if len(ns) != 1 or ns[0][0] != "h" or not (ns[0][1].op == "fld" and ns[0][1].a[1:] == (0, 0) and is_call(ns[0][1].a[0], "positional_method") and ns[0][1].a[0].a[1][1] is M):
        return "an operation becomes %s" % render(ns)[:200]
    return None


def builder_merged(g, X, found, facts):
    bad, rest = builders(g, X, found)
    if bad:
        return bad
    if len(rest) != 1 or rest[0][0][-1:] != ("impl Client",):
        return "operations appear in %s" % [p for p, _ in rest]
    t = X.per_op(rest[0][1])
    if t is None:
        return X.why
    if not is_fn(g, tree(t), True):
        return "an operation becomes %s" % render(tree(t))[:300]
    return None


def builder_separate(g, X, found, facts):
    bad, rest = builders(g, X, found)
    if bad:
        return bad
    OM = g.adt("OperationMethod")
    tags = g.get(M, OM, "tags")
    empty = call("is_empty", tags)

    def isempty(a, v):
        """does the fact say that M has no tags?"""
        if a is empty or (a.op == "is_empty" and a.a[0] is tags):
            return bool(v)
        return None

    def untagged(t):
        """the text or elements for M without tags, None if it is not that"""
        t = unstar(t)
        if t.op == "seq" and len(t.a[0]) == 1 and t.a[0][0].op == "spread":
            t = t.a[0][0].a[0]
        if t.op != "phi" or len(t.a[0]) != 2:
            return None, "an operation without tags becomes %s" % show(t)[:200]
        pos = neg = None
        for gd, v in t.a[0]:
            gd = list(gd)
            if len(gd) != 1 or isempty(*gd[0]) is None:
                return None, "whether an operation is untagged depends on %s" % [show(a)[:100] for a, _ in gd]
            if isempty(*gd[0]):
                pos = v
            else:
                neg = v
        if pos is None or neg is None or not (neg is mk("seq", ()) or neg is cat() or neg is lstr("")):
            return None, "an operation with tags also becomes %s" % (show(neg)[:200] if neg is not None else "nothing")
        if pos.op == "seq":
            pos = pos.a[0][0].a[0] if len(pos.a[0]) == 1 and pos.a[0][0].op == "e" else None
        return pos, None

    base = [x for x in rest if x[0][-1:] == ("impl Client",)]
    rest = [x for x in rest if x not in base]
    if len(base) > 1:
        return "operations without tags appear %d times" % len(base)
    if base:
        t = X.per_op(base[0][1])
        if t is None:
            return X.why
        u, bad = untagged(t)
        if bad:
            return bad
        if u is None or not is_fn(g, tree(u), True):
            return "an operation without tags becomes %s" % (render(tree(u))[:300] if u is not None else "several things")
    else:
        # left out only when there are none
        ok = False
        for a, v in facts.items():
            s = a.a[0] if a.op == "is_empty" else (a.a[1][0] if is_call(a, "is_empty") else None)
            if s is not None and v is True and X.mentions(s):
                t = X.per_op(tidy(s))
                if t is None:
                    return X.why
                u, bad = untagged(t)
                if u is not None and is_fn(g, tree(u), True):
                    ok = True
                else:
                    return bad or "the operations without tags are not told apart"
        if not ok:
            return "operations without tags are left out"
    # the tags
    uses = [x for x in rest if x[0][-1:] == ("pub mod prelude",)]
    top = [x for x in rest if x not in uses]
    if len(uses) != 1 or len(top) != 1 or top[0][0]:
        return "operations with tags appear in %s" % [p for p, _ in rest]
    pushed = None
    names = []
    for p, t in (top[0], uses[0]):
        if t.op != "star" or t.a[0].op != "iter":
            return "the tags are repeated as %s" % show(t)[:200]
        mp = t.a[0].a[0]
        while is_call(mp, "iter", "into_iter"):
            mp = mp.a[1][0]
        if mp.op != "mapof" or not (isinstance(mp.a[0], tuple) and mp.a[0][0] == "grouped"):
            return "the tags come from %s" % show(mp)[:200]
        pt = X.per_op(mp.a[1])
        if pt is None:
            return X.why
        if pushed is not None and pt is not pushed:
            return "the prelude is made from other tags than the traits"
        pushed = pt
        names.append((t.a[1], t.a[2]))
    # what is collected: for every tag of M one entry under that tag
    t = pushed
    if t.op == "seq" and len(t.a[0]) == 1 and t.a[0][0].op == "spread":
        t = t.a[0][0].a[0]
    alts = [((), t)] if t.op != "phi" else list(t.a[0])
    val = None
    for gd, v in alts:
        gd = list(gd)
        if any(isempty(*x) is None for x in gd):
            return "whether an operation is listed under its tags depends on %s" % [show(a)[:100] for a, _ in gd]
        if any(isempty(*x) for x in gd):
            if v.op == "seq" and v.a[0]:
                return "an operation without tags is listed under a tag"
            continue
        if v.op == "seq" and len(v.a[0]) == 1:
            v = v.a[0][0]
        if v.op != "star" or v.a[0] is not mk("iter", tags):
            return "an operation is listed under %s" % show(v)[:200]
        e = v.a[2]
        if e.op == "seq" and len(e.a[0]) == 1 and e.a[0][0].op == "e":
            e = e.a[0][0].a[0]
        if e.op != "agg" or e.a[0] != "tuple" or e.a[2][0] is not v.a[1]:
            return "an operation is listed under %s" % show(e)[:200]
        val = e.a[2][1]
        if contains(val, lambda z: z is v.a[1]):
            return "what an operation becomes depends on the tag"
    if val is None:
        return "an operation with tags is not listed"
    # what a group becomes
    tb, body = names[0]
    sig, fb = client_fn(g)
    trait = None
    for f, x in choices(body, {}):
        ns = undoc(tree(x))
        mm = matches("pub trait $tr { $$t } impl $tr for Client { $$i }", ns)
        if mm is None:
            mm = matches("impl $tr for Client { $$i } $$mid pub trait $tr { $$t }", ns)
            if mm is not None and undoc(mm["ANY_mid" if "ANY_mid" in mm else "mid"]):
                mm = None
        if mm is None:
            return "a tag becomes %s" % render(ns)[:300]
        if any(a.op == "var" and contains(a, lambda z: z.op == "is_empty") for a in f):
            return "a tag's trait depends on %s" % cond(f)
        for part, wantf in (("t", lambda n: same_nodes(undoc(n), sig + [("t", ";")])), ("i", lambda n: is_fn(g, n, False))):
            n = mm[part]
            if len(n) != 1 or n[0][0] != "h" or n[0][1].op != "star" or n[0][1].a[0] is not mk("iter", fld(tb, 0, 1)):
                return "the trait of a tag has %s" % render(n)[:200]
            s = n[0][1]
            y = replace(s.a[2], {fld(s.a[1], 0, k): fld(val, 0, k) for k in range(4) if val.op == "agg" and k < len(val.a[2])} | {s.a[1]: val})
            if not wantf(tree(y)):
                return "the trait of a tag has, for an operation, %s" % render(tree(y))[:300]
        tr = replace(mm["tr"][1], {tb: TAG}) if mm["tr"][0] == "h" else None
        if trait is not None and tr is not trait:
            return "a tag has differently named traits"
        trait = tr
    if trait is None or not contains(trait, lambda z: z is fld(TAG, 0, 0)):
        return "the trait of a tag is not named after it"
    ub, ut = names[1]
    x = matches("pub use super :: $tr ;", tree(ut))
    if x is None or x["tr"][0] != "h" or replace(x["tr"][1], {ub: TAG}) is not trait:
        return "the prelude has %s for a tag" % render(tree(ut))[:200]
    return None


def unstar(t):
    """a repetition over elements that are known one by one"""
    if t.op == "star" and t.a[0].op == "iter":
        x = t.a[0].a[0]
        if x.op == "phi":
            return phi([(gd, unstar(mk("star", mk("iter", v), t.a[1], t.a[2]))) for gd, v in x.a[0]])
        if x.op == "seq" and all(e.op == "e" for e in x.a[0]):
            ts = [subst(t.a[2], {t.a[1]: e.a[0]}) for e in x.a[0]]
            return cat(*ts)
    return t


TAG = sym("tag")
STYLES = {("Positional", "Merged"): positional_merged, ("Builder", "Merged"): builder_merged, ("Builder", "Separate"): builder_separate}


def function(ns, name):
    """the body of the function called name, wherever it is defined, else None"""
    for i, x in enumerate(ns):
        if x == ("t", "fn") and i + 1 < len(ns) and ns[i + 1] == ("t", name):
            for y in ns[i + 2:]:
                if y[0] == "g" and y[1] == "{":
                    return y[2]
                if y == ("t", ";"):
                    break
        if x[0] == "g":
            r = function(x[2], name)
            if r is not None:
                return r
    return None


def block(ns, pat):
    """the contents of the block whose header matches"""
    out = []
    for i, x in enumerate(ns):
        if x[0] == "g":
            if x[1] == "{" and matches(pat, header(ns, i)) is not None:
                out.append(x[2])
            out.extend(block(x[2], pat))
    return out


def g11_cli(g, rep, X, OID, pascal, FREE):
    G = g.adt("Generator")
    spec = sym("spec")
    if not g.inherent(G, "cli_method"):
        raise Missing("cli_method")
    g.opaque(free=FREE, gen=("process_operation", "cli_method"))
    b = g.method(G, "cli")[0]
    w = g.where(b)
    outs = [o for o in g.run(b, [g.struct("Generator", "g", settings=g.settings()), spec, sym("crate")]) if o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 0]
    OPS = g.adt("CliOperation")
    cm = call(g.method(G, "cli_method")[0], ANYGEN, M)
    cmf = lambda n: ("h", g.get(cm, OPS, n))
    V = mk("ident", pascal(OID))
    bads = {}
    for o in outs:
        ns = tree(tidy(resolve(fld(o.ret, 0, 0), o.facts)))

        def per(nodes, key, only=True):
            """what the one repetition over the operations produces"""
            hs = [n[1] for n in nodes if n[0] == "h" and X.mentions(n[1])]
            if len(hs) != 1:
                bads.setdefault(key, "%d repetitions over the operations" % len(hs))
                return None
            if only and len(nodes) != 1:
                bads.setdefault(key, "there is also %s" % render(nodes)[:200])
            t = X.per_op(hs[0])
            if t is None:
                bads.setdefault(key, X.why)
                return None
            return tree(rebuild_calls(simple_name(g, t, OID)))

        for fname, key, pats in (("get_command", "command", ("CliCommand :: {0} => Self :: {1} ( ) ,", "CliCommand :: {0} => {{ Self :: {1} ( ) }}", "CliCommand :: {0} => {{ Self :: {1} ( ) }} ,")),
                                 ("execute", "execute", ("CliCommand :: {0} => {{ self . {1} ( matches ) . await }}", "CliCommand :: {0} => self . {1} ( matches ) . await ,"))):
            body = function(ns, fname)
            if body is None:
                bads.setdefault(key, "there is no function %s" % fname)
                continue
            x = matches("match cmd { $$arms }", body) or matches("match cmd { $$arms } ;", body)
            if x is None:
                bads.setdefault(key, "%s does not tell the commands apart" % fname)
                continue
            t = per(x["arms"], key)
            if t is None:
                continue
            name = mk("ident", cat(lstr("cli_" if key == "command" else "execute_"), OID))
            if not any(same_nodes(t, fill(p.replace("{{", "{ ").replace("}}", " }"), V, name)) for p in pats):
                bads.setdefault(key, "for an operation: %s" % render(t)[:250])
        for pat, key, n in (("impl < T : CliConfig > Cli < T >", "functions", ("cli_fn", "execute_fn")), ("pub trait CliConfig", "config", ("execute_trait",))):
            bl = block(ns, pat)
            if len(bl) != 1:
                bads.setdefault(key, "there are %d blocks `%s`" % (len(bl), pat))
                continue
            got = []
            for h in [z for z in bl[0] if z[0] == "h" and X.mentions(z[1])]:
                t = X.per_op(h[1])
                if t is None:
                    bads.setdefault(key, X.why)
                    continue
                got.extend(tree(rebuild_calls(t)))
            if sorted(map(str, got)) != sorted(str(cmf(z)) for z in n):
                bads.setdefault(key, "for an operation: %s" % render(got)[:250])
        bl = block(ns, "pub enum CliCommand")
        t = per(bl[0], "enum") if len(bl) == 1 else bads.setdefault("enum", "there is no enumeration of the commands") and None
        if t is not None and not same_nodes(t, fill("{0} ,", V)) and not same_nodes(t, fill("{0}", V)):
            bads.setdefault("enum", "for an operation: %s" % render(t)[:250])
        body = function(ns, "iter")
        x = body is not None and (matches("vec ! [ $$v ] . into_iter ( )", body) or matches("[ $$v ] . into_iter ( )", body))
        if not x:
            bads.setdefault("iter", "the commands are listed by %s" % render(body or [])[:200])
        else:
            t = per(x["v"], "iter")
            if t is not None and not same_nodes(t, fill("CliCommand :: {0} ,", V)) and not same_nodes(t, fill("CliCommand :: {0}", V)):
                bads.setdefault("iter", "for an operation: %s" % render(t)[:250])
    if not outs:
        bads["enum"] = "no command line is generated"
    for key, desc in (("command", "every operation's command is built by the function defined for it"), ("execute", "every operation's command is executed by the function defined for it"),
                      ("functions", "the functions of every operation are defined"), ("config", "every operation can be configured"), ("enum", "there is exactly one command for every operation"), ("iter", "the commands of all operations are listed")):
        need(rep, "G11:cli:%s" % key, key not in bads, desc, w, bads.get(key))

    # the functions of one operation
    g.opaque(free=FREE, gen=("cli_method_args", "extract_responses"))
    mb = g.method(G, "cli_method")[0]
    bads = {}
    n = 0
    for o in g.run(mb, [sym("g"), M]):
        for key, fn, pre in (("cli_fn", "cli_", "pub fn {0} ( ) -> clap :: Command {{ $$body }}"), ("execute_fn", "execute_", "pub async fn {0} ( & self , $$args ) -> anyhow :: Result < ( ) > {{ let mut $req = self . client . {1} ( ) ; $$body }}"),
                             ("execute_trait", "execute_", "fn {0} ( & self , $$args ) -> anyhow :: Result < ( ) > {{ Ok ( ( ) ) }}")):
            for f, t in choices(tidy(resolve(g.get(o.ret, OPS, key), o.facts)), o.facts):
                n += 1
                t = simple_name(g, t, OID)
                ns = tree(t)
                if match(fill(pre.replace("{{", "{ ").replace("}}", " }"), mk("ident", cat(lstr(fn), OID)), mk("ident", OID)), ns, None, f) is None:
                    bads.setdefault(key, render(ns)[:250])
    for key, desc in (("cli_fn", "the function that builds an operation's command bears its name"), ("execute_fn", "the function that executes an operation's command sends that operation"), ("execute_trait", "the hook of an operation's command bears its name")):
        need(rep, "G11:cli:%s" % key, key not in bads and n > 0, desc, g.where(mb), bads.get(key))


def g11_mock(g, rep, X, OID, FREE):
    G = g.adt("Generator")
    spec = sym("spec")
    if not g.inherent(G, "httpmock_method"):
        raise Missing("httpmock_method")
    g.opaque(free=FREE, gen=("process_operation", "httpmock_method"))
    b = g.method(G, "httpmock")[0]
    w = g.where(b)
    outs = [o for o in g.run(b, [g.struct("Generator", "g", settings=g.settings()), spec, sym("crate")]) if o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 0]
    OPS = g.adt("MockOp")
    cm = call(g.method(G, "httpmock_method")[0], ANYGEN, M)
    part = lambda n: g.get(cm, OPS, n)
    name = mk("ident", OID)
    bads = {}
    if not outs:
        bads["operations"] = "no mock server is generated"
    WANT = (("operations", "pub mod operations", "pub struct {1} ( httpmock :: When ) ; {2} pub struct {3} ( httpmock :: Then ) ; {4}"),
            ("trait", "pub trait MockServerExt", "fn {0} < F > ( & self , config_fn : F ) -> httpmock :: Mock where F : FnOnce ( operations :: {1} , operations :: {3} ) ;"),
            ("impl", "impl MockServerExt for httpmock :: MockServer", "fn {0} < F > ( & self , config_fn : F ) -> httpmock :: Mock where F : FnOnce ( operations :: {1} , operations :: {3} ) { self . mock ( | when , then | { config_fn ( operations :: {1} :: new ( when ) , operations :: {3} :: new ( then ) , ) } ) }"))
    for o in outs:
        ns = tree(tidy(resolve(fld(o.ret, 0, 0), o.facts)))
        for key, pat, text in WANT:
            bl = block(ns, pat)
            if len(bl) != 1:
                bads.setdefault(key, "there are %d blocks `%s`" % (len(bl), pat))
                continue
            hs = [n[1] for n in bl[0] if n[0] == "h" and X.mentions(n[1])]
            if len(hs) != 1:
                bads.setdefault(key, "%d repetitions over the operations" % len(hs))
                continue
            t = X.per_op(hs[0])
            if t is None:
                bads.setdefault(key, X.why)
                continue
            t = tree(rebuild_calls(t))
            if not same_nodes(t, tree_of(fill(text, name, part("when"), part("when_impl"), part("then"), part("then_impl")))):
                bads.setdefault(key, "for an operation: %s" % render(t)[:400])
    for key, desc in (("operations", "every operation has its matcher and its answer in the mock server"), ("trait", "the mock server has one method for every operation"), ("impl", "that method builds the operation's own matcher and answer")):
        need(rep, "G11:mock:%s" % key, key not in bads, desc, w, bads.get(key))


def tree_of(ns):
    return ns


# ---------------------------------------------------------------- G16
def g16(g, rep):
    G = g.adt("Generator")
    spec = sym("spec")
    b = g.method(G, "generate_tokens")[0]
    w = g.where(b)
    info = g.get(spec, g.A("OpenAPI"), "info")
    version = g.get(info, g.A("Info"), "version")
    TOTEXT = ("baseurl . to_string ( )", "baseurl . to_owned ( )", "String :: from ( baseurl )", "baseurl . into ( )")
    for inner, tag in ((NONE, "plain"), (some(sym("inner_type")), "inner")):
        g.opaque(free=("validate_openapi", "sanitize"), gen=("process_operation", "positional_method", "builder_struct", "builder_tags", "builder_impl"))
        outs = g.run(b, [g.struct("Generator", "g", settings=g.settings(inner_type=inner)), spec])
        ty = sym("inner_type")
        has = inner is not NONE
        bads = {}
        n = 0

        def check(key, ns, pats, *terms):
            if ns is None:
                bads.setdefault(key, "it is not generated")
            elif not any(match(fill(p, *terms), ns) is not None for p in pats):
                bads.setdefault(key, render(ns)[:300])
        for o in outs:
            if o.ret.op != "agg" or o.ret.a[0] != RES or o.ret.a[1] != 0:
                continue
            n += 1
            ns = tree(tidy(resolve(fld(o.ret, 0, 0), o.facts)))
            bl = block(ns, "pub struct Client")
            TT = mk("tokens", ty) if has else cat()
            fields = ("pub ( crate ) baseurl : String , pub ( crate ) client : reqwest :: Client", "pub ( crate ) client : reqwest :: Client , pub ( crate ) baseurl : String")
            if len(bl) != 1:
                bads.setdefault("struct", "there are %d such types" % len(bl))
            else:
                check("struct", bl[0], [f + (" , pub ( crate ) inner : $ty" if has else "") for f in fields])
                if has:
                    t = matches("$$a inner : $ty", bl[0])
                    if t is None or t["ty"][0] != "h" or not contains(t["ty"][1], lambda x: x is ty):
                        bads.setdefault("struct", "the inner value's type is %s" % render(bl[0])[-80:])
            nw = function(ns, "new_with_client")
            check("given", nw, ["Self { baseurl : %s , client%s }" % (x, " , inner" if has else "") for x in TOTEXT] + ["Self { client , baseurl : %s%s }" % (x, " , inner" if has else "") for x in TOTEXT])
            new = function(ns, "new")
            check("new", new, ["$$a Self :: new_with_client ( baseurl , client . build ( ) . unwrap ( )%s )" % (" , inner" if has else "")])
            ps = params_of(ns, "new_with_client")
            check("parameters", ps, ["baseurl : & str , client : reqwest :: Client" + (" , inner : $ty" if has else "")])
            check("parameters", params_of(ns, "new"), ["baseurl : & str" + (" , inner : $ty" if has else "")])
            check("baseurl", function(ns, "baseurl"), ["& self . baseurl"])
            check("client", function(ns, "client"), ["& self . client"])
            check("version", function(ns, "api_version"), ["{0}"], mk("lit", version))
            if has:
                check("inner", function(ns, "inner"), ["& self . inner"])
            elif function(ns, "inner") is not None:
                bads.setdefault("inner", "a client without an inner value has an accessor for it")
        if not n:
            bads["given"] = "no client is generated"
        for key, desc in (("struct", "the client holds the base URL, the HTTP client%s" % (" and the inner value" if has else " and nothing else")),
                          ("given", "a client made from an HTTP client holds exactly what it was given"), ("new", "a client made from a base URL is made the same way, with an HTTP client of its own"),
                          ("parameters", "the constructors take exactly what the client holds"), ("baseurl", "the reported base URL is the client's"), ("client", "the reported HTTP client is the client's"),
                          ("version", "the reported API version is the document's"), ("inner", "the inner value is reported if there is one")):
            need(rep, "G16:%s:%s" % (tag, key), key not in bads, desc, w, bads.get(key))


def params_of(ns, name):
    """the parameters of the function called name"""
    for i, x in enumerate(ns):
        if x == ("t", "fn") and i + 2 < len(ns) and ns[i + 1] == ("t", name):
            return ns[i + 2][2] if ns[i + 2][0] == "g" and ns[i + 2][1] == "(" else None
        if x[0] == "g":
            r = params_of(x[2], name)
            if r is not None:
                return r
    return None
