"""What the generated mock server extension (G09) and command line program (G17) say, for every document."""
from specs_gen import *
from specs_gen import P
from specs_gen6 import *
import specs_gen6
import iters
import itertools


def undoc(ns):
    """without documentation comments, at any depth"""
    out, i = [], 0
    while i < len(ns):
        x = ns[i]
        if x == ("t", "#"):
            j = i + 1
            if j < len(ns) and ns[j] == ("t", "!"):
                j += 1
            if j < len(ns) and ns[j][0] == "g" and ns[j][1] == "[" and ns[j][2][:1] == [("t", "doc")]:
                i = j + 1
                continue
        out.append(("g", x[1], undoc(x[2])) if x[0] == "g" else x)
        i += 1
    return out


def bare(ns):
    """without the commas that end a list of arguments"""
    return [("g", x[1], bare(x[2])) if x[0] == "g" else x for x in ns]


def written(g, rep, key, where, desc, texts, spec, base=None):
    """like Gen.emission, but a pattern may come with a check of what its placeholders stand for.
    spec(ask) -> None (anything) or [(pattern source, holes, check or None)]"""
    bad, n = None, 0
    ls = leaves(spec)
    covered = set()
    for text in texts:
        for f0, t in choices(tidy(text), base or {}):
            for i, (lf, exp) in enumerate(ls):
                f = merge_facts(lf, f0)
                if f is None:
                    continue
                covered.add(i)
                n += 1
                if exp is None or bad is not None:
                    continue
                got = undoc(tree(resolve(t, f)))
                why = None
                for pat, holes, chk in exp:
                    b = match(fill(pat, *holes), got, None, f)
                    if b is None:
                        continue
                    c = chk(b, f) if chk else None
                    if c is None:
                        break
                    why = why or c
                else:
                    bad = "when %s: %s, generated `%s`" % (cond(lf), why or "expected `%s`" % render(fill(exp[0][0], *exp[0][1])), render(got)[:500])
    for i, (lf, exp) in enumerate(ls):
        if i not in covered and bad is None and exp:
            bad = "nothing is generated when %s" % cond(lf)
    rep.ob(key, bad is None, desc, where, bad or "%d alternatives agree" % n)
    return bad is None


# ---------------------------------------------------------------- G09
META = set("\\.+*?()|[]^$")  # characters with a meaning in a regular expression; braces do not occur in a template's text (G03)
# statuses http::StatusCode::canonical_reason knows
CANON = set([100, 101, 102] + list(range(200, 209)) + [226] + list(range(300, 306)) + [307, 308] + list(range(400, 419)) + [421, 422, 423, 424, 425, 426, 428, 429, 431, 451] + list(range(500, 509)) + [510, 511])


def literal_of(t, of, f):
    """is the text a regular expression for exactly the text `of`?"""
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] == "escape" and len(t.a[1]) == 1 and eqv(t.a[1][0], of, f):
        return None
    if eqv(t, of, f):
        return "the path's text has a meaning as a regular expression: `.`, `+`, `(`, `$`, … are not escaped"
    if t.op == "join":
        t = iters.join_as_star(t)
    if t.op != "star" or t.a[0].op != "iter" or not chars_of(t.a[0].a[0], of, f):
        return "the path's text becomes %s" % show(t)[:200]
    ch = t.a[1]
    alts = choices(tidy(t.a[2]), f)
    for k in map(chr, range(0x20, 0x7f)):
        vals = set()
        for fx, v in alts:
            h = char_holds(fx, ch, k)
            if h is None:
                return "whether %r is escaped cannot be told" % k
            if h:
                vals.add("".join(one_char(p, ch) for p in pieces(v)))
        if len(vals) != 1:
            return "%r is written in %d ways" % (k, len(vals))
        v = vals.pop()
        if v not in ("@", "\\@"):
            return "%r is written %s" % (k, v)
        if k in META and v == "@":
            return "%r is not escaped" % k
        if v != "@" and k.isalnum():
            return "%r is escaped, which gives it a meaning" % k
    return None


def char_holds(f, ch, k):
    """do the facts about a character hold for the character k? None if one cannot be evaluated"""
    for a, v in f.items():
        if not contains(a, lambda x: x is ch):
            continue
        r = None
        if a.op in ("ieq", "eq") and ch in a.a:
            o = a.a[1] if a.a[0] is ch else a.a[0]
            r = (o.a[0] == k) if o.op in ("char", "str") else None
        elif a.op == "call" and a.a[0].rsplit("::", 1)[-1] == "contains" and a.a[1][-1] is ch:
            o = a.a[1][0]
            r = k in o.a[0] if o.op == "str" else None
        elif a.op == "call" and len(a.a[1]) == 1:
            r = dict(is_alphanumeric=k.isalnum(), is_ascii_alphanumeric=k.isalnum(), is_ascii_punctuation=not k.isalnum() and k != " ", is_alphabetic=k.isalpha(), is_ascii_alphabetic=k.isalpha()).get(a.a[0].rsplit("::", 1)[-1])
        if r is None:
            return None
        if r != v:
            return False
    return True


def chars_of(t, of, f):
    return t.op == "call" and t.a[0].rsplit("::", 1)[-1] == "chars" and eqv(t.a[1][0], of, f)


def one_char(p, ch):
    if p is ch or (p.op in ("char", "chr") and p.a[0] is ch):
        return "@"
    return p.a[0] if p.op in ("str", "char") and isinstance(p.a[0], str) else "?!"


class Mock:
    def __init__(self, g):
        H = g.adt("HttpMethod")
        self.g = g
        self.b = g.method(g.adt("Generator"), "httpmock_method")[0]
        self.w = g.where(self.b)
        self.M = g.adt("OperationMethod")
        self.m = g.struct("OperationMethod", "m", method=agg(H, g.vi(H, "Get"), ()))
        self.runs = {}

    def run(self, verb):
        g = self.g
        if verb not in self.runs:
            H = g.adt("HttpMethod")
            g.opaque(free=("sanitize",))
            m = g.struct("OperationMethod", "m", method=agg(H, g.vi(H, verb), ()))
            self.runs[verb] = [o for o in g.run(self.b, [sym("g"), m])]
        return self.runs[verb]

    def part(self, o, n):
        return g_get(self.g, o.ret, "MockOp", n)


def g_get(g, t, adt, n):
    return g.get(t, g.adt(adt), n)


def path_regex(g, comps, t, f, param=None):
    """complaint about a regular expression made from the components of a path, or None"""
    TP = g.adt("Component")
    Const, Par = g.vi(TP, "Constant"), g.vi(TP, "Parameter")
    ps = list(pieces(t.a[0] if t.op == "lit" else t))
    if len(ps) != 3 or ps[0] is not lstr("^") or ps[2] is not lstr("$"):
        return "the path's regular expression is not anchored at both ends: %s" % show(t)[:200]
    c = sym("component")
    body = for_each(ps[1], comps, c)
    if body is None:
        return "the path's regular expression is not made from the path's components in order: %s" % show(ps[1])[:200]
    cover = set()
    for fx, v in choices(tidy(body), f):
        k = fx.get(var(c))
        if k is None:
            return "the path's regular expression does not depend on its components"
        if k == Const:
            why = literal_of(v, fld(c, Const, 0), fx)
            if why:
                return why
            cover.add("constant")
            continue
        mine = fx.get(mk("eq", fld(c, Par, 0), param)) if param is not None else False
        if mine is None and param is not None:
            mine = fx.get(mk("eq", param, fld(c, Par, 0)))
        if mine is None:
            return "a path parameter's place does not depend on its name"
        # a parameter's matcher only adds to the condition set by new()
        want = ("{}",) if mine else ("[^/]*", ".*") if param is not None else ("[^/]*",)
        if v.op != "str" or v.a[0] not in want:
            return "%s is matched by %s" % ("the parameter" if mine else "another parameter" if param is not None else "a parameter", show(v)[:100])
        cover.add("mine" if mine else "other")
    miss = {"constant", "other"} - cover if param is None else {"constant", "other", "mine"} - cover
    return "the path's regular expression leaves out %s" % ", ".join(sorted(miss)) if miss else None


WHEN = """impl {0} {
  pub fn new ( inner : httpmock :: When ) -> Self { Self ( inner . method ( httpmock :: Method :: %s ) . path_matches ( regex :: Regex :: new ( $re ) . unwrap ( ) ) ) }
  pub fn into_inner ( self ) -> httpmock :: When { self . 0 }
  $$methods
}"""
THEN = """impl {0} {
  pub fn new ( inner : httpmock :: Then ) -> Self { Self ( inner ) }
  pub fn into_inner ( self ) -> httpmock :: Then { self . 0 }
  $$methods
}"""


def g09(g, rep):
    M = Mock(g)
    w = M.w
    H = g.adt("HttpMethod")
    params = g.get(M.m, M.M, "params")
    resps = g.get(M.m, M.M, "responses")
    comps = g_get(g, g.get(M.m, M.M, "path"), "PathTemplate", "components")
    opid = g.get(M.m, M.M, "operation_id")
    if resps is None:
        raise Missing("responses")
    seen_when, seen_then = {}, {}
    for v in VERBS:
        name = next((x["name"] for x in g.E.adts[H]["variants"] if x["name"].lower() == v), None)
        if name is None:
            raise Missing("verb %s" % v)
        outs = M.run(name)
        bad = None if outs else "nothing is generated"
        for o in outs:
            wn, tn = tidy(M.part(o, "when")), tidy(M.part(o, "then"))
            wi = undoc(tree(tidy(M.part(o, "when_impl"))))
            ti = undoc(tree(tidy(M.part(o, "then_impl"))))
            x = match(fill(WHEN % v.upper(), wn), wi, None, o.facts)
            y = match(fill(THEN, tn), ti, None, o.facts)
            if x is None or y is None:
                bad = bad or "it is `%s`" % render(wi if x is None else ti)[:600]
                continue
            if wn is tn:
                bad = bad or "both types have the same name"
            seen_when.setdefault(freeze((x["re"], x["methods"])), (x, o.facts))
            seen_then.setdefault(freeze(y["methods"]), (y, o.facts))
        need(rep, "G09:verb:%s" % v, bad is None, "the mock of a %s operation matches %s requests whose path its regular expression matches" % (v.upper(), v.upper()), w, bad)
    for x, f in seen_when.values():
        why = path_regex(g, comps, x["re"][1], f) if x["re"][0] == "h" else "it is `%s`" % render([x["re"]])
        need(rep, "G09:path", why is None, "the path matched is the template's: its text literally, any text without a slash in place of each parameter", w, why)
        texts = hole_args(x["methods"], params)
        if need(rep, "G09:matchers", texts is not None and len(texts) == 1, "each parameter of the operation has one matcher", w, "they are `%s`" % render(x["methods"])[:300]):
            matchers(g, rep, w, texts, comps, f)
    for y, f in seen_then.values():
        texts = hole_args(y["methods"], resps)
        if need(rep, "G09:answers", texts is not None and len(texts) == 1, "each documented response has one way to answer", w, "they are `%s`" % render(y["methods"])[:300]):
            replies(g, rep, w, texts, f)
    extension(g, rep, M)


def type_text(g, OP):
    """a check that the placeholder ty is the registered parameter type of the parameter"""
    def chk(b, f):
        n = b.get("ty")
        ts = [n] if isinstance(n, tuple) else list(n)
        hs = [x[1] for x in ts if x[0] == "h"]
        tid = fld(OP.typ, OP.Type, 0)
        if len(hs) == 1 and contains(hs[0], lambda x: x.op == "call" and x.a[0].endswith("parameter_ident") and contains(x, lambda y: y is tid)):
            return None
        return "the value's type is not that of the parameter"
    return chk


def matchers(g, rep, w, texts, comps, f):
    OP = Param(g)
    ty = type_text(g, OP)
    ONE = "pub fn {0} ( self , value : $$ty ) -> Self { %s }"
    nlit, alit = mk("lit", OP.name), OP.lit
    raw = lambda ask: ask(var(OP.typ), OP.nt) == OP.Raw

    def only(*kinds):
        """anything for the other kinds of parameter"""
        def deco(h):
            def spec(ask):
                k = OP.kindis(ask)
                return h(ask, k) if k in kinds else None
            return spec
        return deco

    def re_ok(b, f):
        if b["re"][0] != "h":
            return "its regular expression is `%s`" % render([b["re"]])
        return path_regex(g, comps, b["re"][1], f, OP.api_name) or ty(b, f)

    PATH = ONE % "let $v = regex :: Regex :: new ( & format ! ( $re , %s ) ) . unwrap ( ) ; Self ( self . 0 . path_matches ( $v ) )"
    VALUE = ("value . to_string ( )", "regex :: escape ( & encode_path ( & value . to_string ( ) ) )", "regex :: escape ( & $$p encode_path ( & value . to_string ( ) ) )")

    @only(OP.Path)
    def path(ask, k):
        return None if raw(ask) else [(PATH % v, (OP.ident,), re_ok) for v in VALUE]

    @only(OP.Path)
    def pathv(ask, k):
        return None if raw(ask) else [(PATH % v, (OP.ident,), None) for v in VALUE[1:]]

    written(g, rep, "G09:param:path", w, "a path parameter's matcher fixes that parameter's place in the path", texts, path, f)
    written(g, rep, "G09:param:path:value", w, "the value of a path parameter's matcher is matched as it is sent: encoded, and literally", texts, pathv, f)

    REQ = ONE % "Self ( self . 0 . query_param ( {1} , value . to_string ( ) ) )"
    ABS = ("Self ( self . 0 . matches ( | req | { req . query_params . as_ref ( ) . and_then ( | qs | { qs . iter ( ) . find ( | ( key , _ ) | key == {1} ) } ) . is_none ( ) } ) )",
           "Self ( self . 0 . matches ( | req | { req . query_params . as_ref ( ) . map_or ( true , | qs | qs . iter ( ) . all ( | ( key , _ ) | key != {1} ) ) } ) )")
    OPT = "pub fn {0} < $$lt T > ( self , value : T ) -> Self where T : Into < Option < $$ty >> , { if let Some ( value ) = value . into ( ) { Self ( self . 0 . query_param ( {1} , value . to_string ( ) ) ) } else { %s } }"

    def query(lits):
        @only(OP.Query)
        def spec(ask, k):
            if raw(ask):
                return None
            if ask(fld(OP.kind, k, 0)):
                return [(REQ, (OP.ident, l), ty) for l in lits]
            return [(OPT % a, (OP.ident, l), ty) for l in lits for a in ABS]
        return spec
    written(g, rep, "G09:param:query", w, "a query parameter's matcher requires the value given under one name, or, for an optional one, its absence", texts, query((alit, nlit)), f)
    written(g, rep, "G09:param:query:name", w, "a query parameter's matcher uses the parameter's name in the request", texts, query((alit,)), f)

    @only(OP.Header)
    def header(ask, k):
        if raw(ask):
            return None
        return [(ONE % "Self ( self . 0 . header ( {1} , value . to_string ( ) ) )", (OP.ident, alit), ty), ("pub fn {0} < $$lt T > ( self , value : T ) -> Self where T : Into < Option < $$ty >> , { if let Some ( value ) = value . into ( ) { Self ( self . 0 . header ( {1} , value . to_string ( ) ) ) } else { $$absent } }", (OP.ident, alit), ty)]
    @only(OP.Header)
    def headerf(ask, k):
        return None if raw(ask) else header(ask) + [(ONE % "todo ! ( )", (OP.ident,), ty)]
    written(g, rep, "G09:param:header:form", w, "a header parameter's matcher requires that header to have the value given, or stops the test", texts, headerf, f)
    written(g, rep, "G09:param:header", w, "a header parameter's matcher requires that header to have the value given", texts, header, f)

    def body(which):
        @only(OP.Body)
        def spec(ask, k):
            b = ask(var(fld(OP.kind, k, 0)), OP.nb)
            if b != which:
                return None
            if raw(ask):
                return {OP.Text: [(ONE.replace("$$ty", "String") % "Self ( self . 0 . body ( value ) )", (OP.ident,), None)],
                        OP.Octet: [(ONE.replace("$$ty", "$$any") % "Self ( self . 0 . body ( $$x ) )", (OP.ident,), None)]}.get(b)
            return {OP.Json: [(ONE % "Self ( self . 0 . json_body_obj ( value ) )", (OP.ident,), ty)],
                    OP.Form: [(ONE % "Self ( self . 0 . body ( serde_urlencoded :: to_string ( & value ) . unwrap ( ) ) )", (OP.ident,), ty)]}.get(b)
        return spec
    def loose(which, pats):
        @only(OP.Body)
        def spec(ask, k):
            r = body(which)(ask)
            return r and r + pats
        return spec
    written(g, rep, "G09:param:body:form:form", w, "a form's matcher requires the body given", texts, loose(OP.Form, [(ONE % "Self ( self . 0 . json_body_obj ( value ) )", (OP.ident,), ty)]), f)
    written(g, rep, "G09:param:body:octet:form", w, "the matcher of an uninterpreted body requires the body given", texts, loose(OP.Octet, [(ONE.replace("$$ty", "serde_json :: Value") % "Self ( self . 0 . json_body ( value ) )", (OP.ident,), None)]), f)
    for n in ("new", "into_inner"):
        need(rep, "G09:name:%s" % n, False, "no parameter's matcher has the name of the type's own method `%s`" % n, w, "a parameter named %s gives the type a second method of that name" % n)
    for n, k in (("json", OP.Json), ("text", OP.Text), ("form", OP.Form), ("octet", OP.Octet)):
        written(g, rep, "G09:param:body:%s" % n, w, "the body's matcher requires the body given, as a request of that content type sends it (%s)" % n, texts, body(k), f)


def replies(g, rep, w, texts, f):
    X = Status(g)
    r = P
    st, ty = X.status(r), X.typ(r)
    VALUE = {"Type": ("value : $ty ,", ". header ( \"content-type\" , \"application/json\" ) . json_body_obj ( value )"),
             "Raw": ("value : serde_json :: Value ,", ". header ( \"content-type\" , \"application/json\" ) . json_body ( value )"),
             "None_": ("", ""), "Upgrade": ("", "")}
    CLASS = {1: "informational", 2: "success", 3: "redirect", 4: "client_error", 5: "server_error"}
    tyof = None

    def typed(b, f):
        n = b.get("ty")
        if n is None:
            return None
        return None if n[0] == "h" and n[1].op == "call" and n[1].a[0].endswith("parameter_ident") and contains(n[1], lambda y: y is fld(ty, X.kinds["Type"], 0)) else "the value's type is not the response's"

    def spec(ask):
        s = ask(var(st), g.nv(X.S))
        k = X.kind[ask(var(ty), g.nv(X.K))]
        vp, use = VALUE[k]
        num = X.number(st, s)
        trim = lambda p: [p, p.replace(" , )", " )")]
        if s == X.Default:
            return [(q, (), typed) for q in trim("pub fn default_response ( self , status : u16 , %s ) -> Self { Self ( self . 0 . status ( status ) %s ) }" % (vp, use))]
        if s == X.Code:
            return [(q, (mk("num", num, "u16"),), lambda b, f: typed(b, f) or code_name(g, b, num)) for q in trim("pub fn $name ( self , %s ) -> Self { Self ( self . 0 . status ( {0} ) %s ) }" % (vp, use))]

        def cls(b, f):
            ks = [k for k in CLASS if holds(f, {num: k})]
            return typed(b, f) or (None if len(ks) == 1 and b["name"] == ("t", CLASS[ks[0]]) else "the class %s is called `%s`" % (ks, render([b["name"]])))
        return [(q, (mk("num", num, "u16"),), cls) for q in trim("pub fn $name ( self , status : u16 , %s ) -> Self { assert_eq ! ( status / 100u16 , {0} ) ; Self ( self . 0 . status ( status ) %s ) }" % (vp, use))]
    written(g, rep, "G09:then", w, "a documented response answers with a status the document allows, and a body exactly if, and of the type, it declares", texts, spec, f)
    # no class and no status is left without an answer
    miss, twice = [], {}
    bad = None
    for c in range(100, 600):
        names = set()
        for fx, t in choices(tidy(texts[0]), f):
            if fx.get(var(st)) != X.Code:
                continue
            h = code_holds(fx, X.number(st, X.Code), c)
            if h is not False:
                names.add(fx.get(var(ty)))
        if len(names) < len(X.kinds):
            miss.append(c)
    need(rep, "G09:then:codes", not miss, "every documented status has a way to answer", w, "none for %s" % ranges(miss))
    got = set()
    for fx, t in choices(tidy(texts[0]), f):
        if fx.get(var(st)) == X.Range:
            got.update(k for k in CLASS if holds(fx, {X.number(st, X.Range): k}))
    need(rep, "G09:then:classes", got == set(CLASS), "every class of statuses has a way to answer", w, "only %s" % sorted(got))


def code_holds(f, num, c):
    """do the facts about a status hold for the status c? None if one cannot be evaluated"""
    r = True
    for a, v in f.items():
        if a.op == "var" and a.a[0].op == "call" and contains(a, lambda x: x is num):
            n = a.a[0].a[0].rsplit("::", 1)[-1]
            # Ok is 0 and Err 1 of a result; None is 0 and Some 1 of an option
            k = int(c in CANON) if n == "canonical_reason" else int(not 100 <= c <= 999) if n == "from_u16" else None
            if k is None:
                r = None
            elif k != v:
                return False
        else:
            h = holds({a: v}, {num: c})
            if not h:
                if h is False:
                    return False
                r = None
    return r


def code_name(g, b, num):
    """the name of a status's method comes from that status"""
    n = b["name"]
    return None if n[0] == "h" and contains(n[1], lambda x: x is num) else "the status's name is `%s`" % render([n])


def per_operation(g, node, spec):
    """(the operation, the text made for it) of a repetition over every operation of the document, or None"""
    if node[0] != "h":
        return None
    po = g.method(g.adt("Generator"), "process_operation")[0]
    t = node[1]
    for _ in range(2):
        if t.op == "join":
            t = iters.join_as_star(t)
        if t.op != "star":
            return None
        if _ == 0 and not (t.a[0].op == "iter" and t.a[0].a[0].op in ("call",) and contains(t.a[0], lambda x: x is g.get(spec, g.A("OpenAPI"), "paths"))):
            return None
        if _ == 1 and not contains(t.a[0], lambda x: x is outer):
            return None
        outer, t = t.a[1], t.a[2]
    ops = {fld(x, 0, 0) for x in subterms(t) if x.op == "call" and x.a[0] == po and contains(x.a[1][1], lambda y: y is outer)}
    # the outermost calls: the state they start from mentions earlier ones
    ops = [o for o in ops if not any(o is not q and contains(q, lambda y: y is o) for q in ops)]
    return (ops[0], t) if len(ops) == 1 else None


def ordered(pats, holes, ns, f):
    """a match of items written in any order"""
    for p in itertools.permutations(pats):
        b = match(fill(" ".join(p), *holes), ns, None, f)
        if b is not None:
            return b
    return None


def extension(g, rep, M):
    spec = sym("spec")
    name, b, outs = next(x for x in generators(g) if x[0] == "httpmock")
    w = g.where(b)
    n = 0
    D = "every operation of the document has its two types and one method of the extension, which hands its own types to the caller's function"
    for o in outs:
        if not (o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 0):
            continue
        n += 1
        ns = undoc(tree(tidy(fld(o.ret, 0, 0))))
        x = ordered(("pub mod operations { use $crate :: * ; $types }", "pub trait MockServerExt { $decls }", "impl MockServerExt for httpmock :: MockServer { $impls }"), (), ns, o.facts)
        if not need(rep, "G09:extension:shape", x is not None, "the extension is a module of types, a trait, and its implementation for the mock server", w, "it is `%s`" % render(ns)[:500]):
            continue
        need(rep, "G09:extension:crate", x["crate"][0] == "h" and contains(x["crate"][1], lambda t: t is sym("crate_path")), "the types are those of the crate asked for", w, render([x["crate"]]))
        PAT = dict(types=("pub struct {1} ( httpmock :: When ) ;", "{2}", "pub struct {3} ( httpmock :: Then ) ;", "{4}"),
                   decls="fn {0} < F > ( & self , config_fn : F ) -> httpmock :: Mock where F : FnOnce ( operations :: {1} , operations :: {3} ) ;",
                   impls="fn {0} < F > ( & self , config_fn : F ) -> httpmock :: Mock where F : FnOnce ( operations :: {1} , operations :: {3} ) { self . mock ( | when , then | { config_fn ( operations :: {1} :: new ( when ) , operations :: {3} :: new ( then ) , ) } ) }")
        for part, p in PAT.items():
            r = per_operation(g, x[part], spec)
            if not need(rep, "G09:extension:%s:all" % part, r is not None, D, w, "it is `%s`" % render([x[part]])[:300]):
                continue
            op, t = r
            calls = {c for c in subterms(t) if c.op == "call" and c.a[0] == M.b}
            own = [c for c in calls if c.a[1][1] is op]
            ok = len(own) == 1
            why = "it is `%s`" % render(tree(t))[:400]
            if ok:
                h = [mk("ident", g.get(op, M.M, "operation_id"))] + [g_get(g, own[0], "MockOp", k) for k in ("when", "when_impl", "then", "then_impl")]
                ns2 = undoc(tree(tidy(t)))
                ok = ordered(p if isinstance(p, tuple) else (p,), h, ns2, o.facts) is not None
            need(rep, "G09:extension:%s" % part, ok, D, w, why)
    need(rep, "G09:extension", n > 0, "the extension is generated", w, "never")


# ---------------------------------------------------------------- G17
VALUES = "clap :: builder :: TypedValueParser :: map ( clap :: builder :: PossibleValuesParser :: new ( [ $all ] ) , | $s | $ty :: try_from ( $s ) . unwrap ( ) )"


def named(t, *names):
    return t.op == "call" and isinstance(t.a[0], str) and t.a[0].rsplit("::", 1)[-1] in names


def fact(f, pred):
    """the value of the only fact about an atom, None if there is none"""
    vs = {v for a, v in f.items() if pred(a)}
    return vs.pop() if len(vs) == 1 else None


def types_in(t, out=None):
    """the types a term is about: those whose entry is looked up, not those only needed to find them"""
    out = set() if out is None else out
    if named(t, "get_type"):
        out.add(t.a[1][-1])
        return out
    for y in specs_gen6.kids_of(t):
        types_in(y, out)
    return out


class Cli:
    def __init__(self, g):
        self.g = g
        self.M, self.PI = g.adt("OperationMethod"), g.A("TypeStructPropInfo")
        self.ARGS, self.ARG = g.adt("CliOperationArgs"), g.adt("CliArg")
        self.BODY = g.adt("CliBodyArg")
        self.TD = g.A("TypeDetails")
        self.Enum, self.Struct, self.Option = [g.vi(self.TD, n) for n in ("Enum", "Struct", "Option")]
        self.Simple = g.vi(g.A("TypeEnumVariant"), "Simple")
        self.m = sym("m")
        self.pag = g.get(self.m, self.M, "dropshot_paginated")
        self.params = g.get(self.m, self.M, "params")

    def name_is(self, t, name):
        """is it the option's name: that of the parameter, in kebab case?"""
        return named(t, "to_kebab_case") and t.a[1][0] is name

    def type_of(self, node, tid, f):
        """complaint unless the node names the type"""
        t = node[1] if node[0] == "h" else None
        got = t is not None and named(t, "ident", "parameter_ident") and types_in(t) == {tid}
        return None if got else "the type is `%s`" % render([node])[:200]

    def details(self, tid, f):
        return fact(f, lambda a: a.op == "var" and named(a.a[0], "details") and types_in(a) == {tid})

    def option(self, t, f, name, tid, desc, need):
        """complaint about the text that defines an option, None if right.
        need: True, False or "body" (required unless a body file is given)"""
        ns = tree(tidy(resolve(t, f)))
        b = match(fill("clap :: Arg :: new ( $n ) $$chain"), ns, None, f)
        if b is None:
            return "it is `%s`" % render(ns)[:300]
        lit = b["n"]
        if not (lit[0] == "h" and lit[1].op == "lit" and self.name_is(lit[1].a[0], name)):
            return "it is called `%s`" % render([lit])[:200]
        calls = {}
        for c in chain_of(b["chain"]):
            if c[0] != "call" or c[1][1] in calls:
                return "it is `%s`" % render(ns)[:300]
            calls[c[1][1]] = c[2]
        if not ("long" in calls and [x for x in calls.pop("long") if x != ("t", ",")] == [lit]):
            return "it is not given as --%s" % render([lit])[:100]
        req = False
        if "required" in calls:
            r = calls.pop("required")
            if r not in ([("t", "true")], [("t", "false")]):
                return "required is `%s`" % render(r)[:100]
            req = r == [("t", "true")]
        if "required_unless_present" in calls:
            r = calls.pop("required_unless_present")
            if r != [("t", '"json-body"')] or req:
                return "it is required unless `%s`" % render(r)[:100]
            req = "body"
        if req != need:
            return "it is %s, not %s" % tuple({True: "required", False: "optional", "body": "required unless there is a body file"}[k] for k in (req, need))
        h = calls.pop("help", None)
        d = fact(f, lambda a: a.op == "var" and a.a[0] is desc)
        if d is not None and (d == 1) != (h is not None) or d is None and h is not None:
            return "its help is %s" % (render(h)[:100] if h else "left out")
        if h is not None and not (len(h) == 1 and h[0][0] == "h" and h[0][1].op == "lit" and h[0][1].a[0] is fld(desc, 1, 0)):
            return "its help is `%s`" % render(h)[:100]
        v = calls.pop("value_parser", None)
        for k in ("value_name", "help_heading", "display_order"):
            calls.pop(k, None)
        if calls or v is None:
            return "it says also %s" % ", ".join(calls) if calls else "nothing says how its value is read"
        return self.reader(v, f, tid)

    def reader(self, v, f, tid):
        """complaint about how an option's value is read"""
        v = undoc(v)
        kind = self.details(tid, f)
        other = [x for a, x in f.items() if a.op == "var" and a.a[0].op == "fld" and a.a[0].a[0].op == "someitem" and contains(a.a[0].a[0], lambda z: named(z, "variants")) and types_in(a) == {tid}]
        b = match(fill("clap :: value_parser ! ( $$ty )"), v, None, f)
        if b is not None:
            if len(b["ty"]) != 1:
                return "its value is read as `%s`" % render(b["ty"])[:100]
            if kind == self.Enum and not (other and self.Simple not in other):
                return "the values of an enumeration are not listed"
            return self.type_of(b["ty"][0], tid, f)
        b = match(fill(VALUES), v, None, f)
        if b is None:
            return "its value is read by `%s`" % render(v)[:300]
        if kind != self.Enum or [x for x in other if x != self.Simple]:
            return "the values of a type that is no enumeration of plain values are listed"
        w = self.type_of(b["ty"], tid, f)
        if w:
            return w
        s = b["all"][1] if b["all"][0] == "h" else NONE
        if s.op == "join":
            s = iters.join_as_star(s)
        src = s.a[0] if s.op == "star" else NONE
        if not (src.op == "iter" and named(src.a[0], "variants") and types_in(src) == {tid}):
            return "the values listed are `%s`" % show(src)[:200]
        c = match(fill("$ty :: $v . to_string ( ) $$comma"), tree(tidy(resolve(s.a[2], f))), dict(ty=b["ty"]), f)
        if c is None or c["comma"] not in ([("t", ",")], []) or not (c["v"][0] == "h" and c["v"][1].op == "ident" and contains(c["v"][1], lambda y: y is fld(s.a[1], 0, 0))):
            return "a value listed is `%s`" % render(tree(tidy(s.a[2])))[:200]
        return None

    def use(self, t, f, name, tid, body):
        """complaint about what happens to an option's value"""
        ns = tree(tidy(resolve(t, f)))
        use = ("request = request . body_map ( | $b | { $b . $set ( $v . clone ( ) ) } ) $$end", "request = request . body_map ( | $b | $b . $set ( $v . clone ( ) ) ) $$end") if body else ("request = request . $set ( $v . clone ( ) ) $$end",)
        b = next((x for x in (match(fill("if let Some ( $v ) = matches . get_one :: < $$ty > ( $n %s ) { %s }" % (c, u)), ns, None, f) for u in use for c in ("", ",")) if x is not None), None)
        if b is None or b["end"] not in ([("t", ";")], []) or b["v"][0] != "t" or len(b["ty"]) != 1:
            return "its value goes `%s`" % render(ns)[:300]
        if not (b["n"][0] == "h" and b["n"][1].op == "lit" and self.name_is(b["n"][1].a[0], name)):
            return "the value used is that of `%s`" % render([b["n"]])[:200]
        s = b["set"][1] if b["set"][0] == "h" else NONE
        if s.op == "ident" and s.a[0].op == "call" and s.a[0].a[0] == self.g.fn("sanitize"):
            s = mk("ident", s.a[0].a[1][0]) if s.a[0].a[1][1] is agg(self.g.adt("Case"), self.g.vi(self.g.adt("Case"), "Snake"), ()) else NONE
        if s is not mk("ident", name):
            return "its value is given to `%s`" % render([b["set"]])[:200]
        return self.type_of(b["ty"][0], tid, f)

    def entry(self, v, acc):
        """(key, parser, consumer) if the value is the map with one more entry"""
        if v.op != "mapof" or v.a[1].op != "seq":
            return None
        ps = v.a[1].a[0]
        if len(ps) != 2 or ps[0].op != "spread" or not named(ps[0].a[0], "entries") or ps[0].a[0].a[1][0] is not acc or ps[1].op != "e":
            return None
        k, x = fld(ps[1].a[0], 0, 0), fld(ps[1].a[0], 0, 1)
        return k, self.g.get(x, self.ARG, "parser"), self.g.get(x, self.ARG, "consumer")


def g17(g, rep):
    C = Cli(g)
    arguments(g, rep, C)
    properties(g, rep, C)
    reported(g, rep, C)


D17 = dict(
    arg="each path, query and header parameter, but for the page token of a paginated operation, is one option under its own name, required exactly if the parameter is or the first page needs it, read as the parameter's type",
    use="the value given for a parameter's option goes to the request's setter of that parameter",
    skip="no parameter is left out but the body and the page token of a paginated operation",
    prop="each property of the body that can be written as text is one option under its own name, required exactly if the property is and no body file is given, read as the property's type",
    propuse="the value given for a property's option goes to the body's setter of that property",
    propreq="a body file is required exactly if a required property has no option",
    clash="no option is called json-body, as the option for the body file is")


def arguments(g, rep, C):
    g.opaque(free=("sanitize",), gen=("cli_method_body_arg",))
    b = g.method(g.adt("Generator"), "cli_method_args")[0]
    w = g.where(b)
    pb = g.method(g.adt("Generator"), "cli_method_body_arg")[0]
    outs = g.run(b, [sym("g"), C.m])
    bad, cover, rawbody = {}, set(), []
    item = mk("someitem", mk("iter", C.params))
    OPI = Param(g, item)
    folds = {}
    for o in outs:
        f = o.facts
        P, U = list(pieces(tidy(g.get(o.ret, C.ARG, "parser")))), list(pieces(tidy(g.get(o.ret, C.ARG, "consumer"))))
        xs = []
        for ps, want in ((P, ". arg ( {0} )"), (U, "{0}")):
            s = iters.join_as_star(ps[0]) if ps and ps[0].op == "join" else ps[0] if ps else NONE
            x = s.a[0].a[0] if s.op == "star" and s.a[0].op == "iter" else NONE
            if named(x, "values", "into_values"):
                x, el = x.a[1][0], (s.a[1] if s.op == "star" else None)
            else:
                el = fld(s.a[1], 0, 1) if s.op == "star" else None
            field = g.get(el, C.ARG, "parser" if want.startswith(".") else "consumer") if el is not None else None
            if el is None or match(fill(want, field), tree(tidy(s.a[2])), None, f) is None:
                bad.setdefault("all", "the options are `%s`" % show(ps[0] if ps else NONE)[:200])
            xs.append(x)
        if len(xs) == 2 and xs[0] is not xs[1]:
            bad.setdefault("all", "the options defined are not those used")
        X = xs[0]
        # the body, if there is one
        found = fact(f, lambda a: a.op == "var" and named(a.a[0], "next") and contains(a, lambda y: y is C.params))
        typ = fact(f, lambda a: a is var(OPI.typ))
        kind = fact(f, lambda a: a is var(OPI.kind))
        typed = found == 1 and typ == OPI.Type
        if found == 1 and kind != OPI.Body:
            bad.setdefault("json", "the body is not looked for among the parameters of kind body")
        if found == 1 and typ is None:
            bad.setdefault("json", "a body without a type is not told from one with a type")
        tid = fld(OPI.typ, OPI.Type, 0)
        det = C.details(tid, f)
        struct = typed and det == C.Struct
        need_file = True
        base = X
        if struct:
            fo = X.a[0] if X.op == "fld" and X.a[0].op == "fold" else NONE
            ok = fo.op == "fold" and X is g.get(fo, C.ARGS, "args") and fo.a[0].op == "iter" and named(fo.a[0].a[0], "properties_info") and types_in(fo.a[0]) == {tid}
            up = fo.a[3] if ok else NONE
            ok = ok and up.op == "upd" and up.a[0] == pb and up.a[2].op == "acc" and up.a[3][-1] is fo.a[1]
            if not ok:
                bad.setdefault("props", "the options of a body's properties are `%s`" % show(X)[:300])
                continue
            st = fact(f, lambda a: a.op == "var" and a.a[0].op == "fld" and a.a[0].a[0].op == "fold" and a.a[0].a[2] == g.fi(C.ARGS, "body"))
            base = g.get(fo.a[2], C.ARGS, "args")
            if g.get(fo.a[2], C.ARGS, "body") is not agg(C.BODY, g.vi(C.BODY, "Optional"), ()):
                bad.setdefault("json", "a body file is %s before the properties are known" % show(g.get(fo.a[2], C.ARGS, "body"))[:100])
            if st is None:
                bad.setdefault("json", "whether the body file is required does not depend on the properties")
            if st == g.vi(C.BODY, "None"):
                continue  # excluded by G17:prop:required
            need_file = st == g.vi(C.BODY, "Required")
            cover.add(("struct", need_file))
        elif typed:
            cover.add(("typed", det))
        else:
            cover.add("raw" if found == 1 else "none")
        pag = fact(f, lambda a: a is var(C.pag))
        folds.setdefault((base, pag), o)
        # the body file
        pt, ut = tree(tidy(cat(*P[1:]))), tree(tidy(cat(*U[1:])))
        if not typed:
            if found == 1 and typ == OPI.Raw:
                rawbody.append(bool(pt and ut))
            elif pt or ut:
                bad.setdefault("json", "without a body of a known type: `%s`" % render(pt or ut)[:200])
            continue
        x = match(fill(". arg ( clap :: Arg :: new ( \"json-body\" ) $$c ) $$rest"), pt, None, f)
        c = {k[1][1]: k[2] for k in chain_of(x["c"]) if k[0] == "call"} if x else {}
        if x is None or c.get("long") != [("t", '"json-body"')]:
            bad.setdefault("json", "the body file's option is `%s`" % render(pt)[:300])
        elif c.get("required", [("t", "false")]) != [("t", "true" if need_file else "false")]:
            bad.setdefault("json", "the body file is%s required when %s" % ("" if c.get("required") == [("t", "true")] else " not", "a required property has no option" if struct and need_file else "every required property has an option" if struct else "the body is not an object"))
        elif match(fill("clap :: value_parser ! ( std :: path :: PathBuf )"), c.get("value_parser", []), None, f) is None:
            bad.setdefault("json", "the body file's name is read by `%s`" % render(c.get("value_parser", []))[:200])
        elif set(c) - {"long", "required", "value_parser", "value_name", "help", "help_heading", "display_order", "value_hint"}:
            bad.setdefault("json", "the body file's option says also %s" % ", ".join(c))
        for a in (". unwrap ( )", "?", ". expect ( $e1 )"):
            for z in (". unwrap ( )", "?", ". expect ( $e2 )"):
                for com in ("", ","):
                    y = match(fill("if let Some ( $v ) = matches . get_one :: < std :: path :: PathBuf > ( \"json-body\" ) { let $t = std :: fs :: read_to_string ( $v ) %s ; let $w = serde_json :: from_str :: < $ty > ( & $t %s ) %s ; request = request . body ( $w ) ; }" % (a, com, z)), ut, None, f)
                    if y is not None:
                        break
                if y is not None:
                    break
            if y is not None:
                break
        why = C.type_of(y["ty"], tid, f) if y is not None else "it is `%s`" % render(ut)[:300]
        if why:
            bad.setdefault("file", why)
    want = {"raw", "none", ("struct", True), ("struct", False)} | {("typed", k) for k in g.nv(C.TD) if k != C.Struct}
    miss = want - cover
    if miss:
        bad.setdefault("json", "nothing is generated for %s" % sorted(map(str, miss))[:3])
    need(rep, "G17:options", "all" not in bad, "every option defined is used, and every option used is defined", w, bad.get("all"))
    need(rep, "G17:properties", "props" not in bad, "every property of a body that is an object is considered", w, bad.get("props"))
    need(rep, "G17:json", "json" not in bad, "an operation whose body has a type has an option for a file with the whole body, required exactly if the options of the properties cannot make up the body", w, bad.get("json"))
    need(rep, "G17:json:use", "file" not in bad, "the body file's content, read as the body's type, is the body of the request", w, bad.get("file"))
    need(rep, "G17:body:raw", bool(rawbody) and all(rawbody), "a body without a type can be given", w, "an operation with an uninterpreted or text body has no option for it, so its command cannot send one")
    bad, cover, clash = {}, set(), []
    for (X, pag), o in folds.items():
        if X.op != "fold" or X.a[0] is not mk("iter", C.params) or X.a[2].op not in ("map", "mapof"):
            bad.setdefault("skip", "the options are `%s`" % show(X)[:200])
            continue
        base = {var(C.pag): pag} if pag is not None else {}
        OP = Param(g, X.a[1])
        for a in alternatives(X.a[3]):
            f = merge_facts(base, a.facts)
            if f is None:
                continue
            k = f.get(var(OP.kind))
            token = fact(f, lambda x: x.op in ("ieq", "eq") and OP.name in x.a and lstr("page_token") in x.a)
            skip = k == OP.Body or pag == 1 and token is True
            if a.ret.op == "acc":
                if not skip:
                    bad.setdefault("skip", "a parameter of kind %s has no option" % ("path" if k == OP.Path else "query" if k == OP.Query else "header" if k == OP.Header else "unknown"))
                continue
            if k == OP.Body:
                bad.setdefault("skip", "the body is an option like another")
                continue
            if pag == 1 and token is not False:
                bad.setdefault("skip", "the page token is an option")
            e = C.entry(a.ret, next((x for x in subterms(a.ret) if x.op == "acc"), NONE))
            if e is None or not C.name_is(e[0], OP.name):
                bad.setdefault("arg", "it is `%s`" % show(a.ret)[:200])
                continue
            req = True if k == OP.Path else f.get(fld(OP.kind, k, 0)) if k is not None else None
            first = None
            if not req and pag == 1:
                first = fact(f, lambda x: named(x, "contains") and contains(x, lambda y: y is fld(C.pag, 1, 0)) and x.a[1][-1] is OP.api_name)
                if first is None:
                    bad.setdefault("arg", "whether an option is required does not depend on the first page's needs")
            cover.add((k, bool(req), pag, first))
            tid = fld(OP.typ, OP.Type, 0)
            why = C.option(e[1], f, OP.name, tid, OP.description, bool(req or first))
            if why:
                bad.setdefault("arg", why)
            why = C.use(e[2], f, OP.name, tid, False)
            if why:
                bad.setdefault("use", why)
            clash.append(any(x.op in ("ieq", "eq") and lstr("json-body") in x.a for x in f))
    for k, n in ((OPI.Path, "path"), (OPI.Query, "query"), (OPI.Header, "header")):
        for p in (0, 1):
            for r in ((True,) if k == OPI.Path else (True, False)):
                if not any(c[0] == k and c[1] == r and c[2] in (p, None) for c in cover):
                    bad.setdefault("skip", "no option for a%s %s parameter%s" % ("" if r else "n optional", n, " of a paginated operation" if p else ""))
    need(rep, "G17:arg:left", "skip" not in bad, D17["skip"], w, bad.get("skip"))
    need(rep, "G17:arg", "arg" not in bad, D17["arg"], w, bad.get("arg"))
    need(rep, "G17:arg:use", "use" not in bad, D17["use"], w, bad.get("use"))
    need(rep, "G17:name:json-body", bool(clash) and all(clash), D17["clash"], w, "a parameter or property called json_body takes the name of the option for the body file")


def properties(g, rep, C):
    from interp import St
    g.opaque(free=("sanitize",))
    b = g.method(g.adt("Generator"), "cli_method_body_arg")[0]
    w = g.where(b)
    body = g.E.bodies[b]
    prop = sym("prop")
    name, desc, req, tid = [g.get(prop, C.PI, n) for n in ("name", "description", "required", "type_id")]
    st = St()
    args = sym("args")
    r = g.E.newref(st, args)
    outs = g.outs(g.E.run_body(st, b, (), [sym("g"), r, prop]))
    A, B = g.get(args, C.ARGS, "args"), g.get(args, C.ARGS, "body")
    bad, cover = {}, set()
    for o in outs:
        v = g.E.full(o.st, g.E.read(o.st, r.a[0], r.a[1]))
        f = o.facts
        A2, B2 = g.get(v, C.ARGS, "args"), g.get(v, C.ARGS, "body")
        # the property's own type, or what it is an option of
        opt = C.details(tid, f)
        ty = tid
        if opt == C.Option:
            inner = {z for a in f for z in types_in(a) if types_in(z) == {tid}}
            if len(inner) != 1:
                bad.setdefault("prop", "an optional property is not read as what it is an option of")
                continue
            ty = inner.pop()
        elif opt is None:
            bad.setdefault("prop", "optional properties are not told from others")
            continue
        text = fact(f, lambda a: named(a, "has_impl") and types_in(a) == {ty} and a.a[1][-1].op == "agg" and a.a[1][-1].a[1] == g.vi(a.a[1][-1].a[0], "FromStr"))
        has = fact(f, lambda a: named(a, "contains_key") and a.a[1][0] is A and C.name_is(a.a[1][1], name))
        rq = f.get(req)
        if text is None:
            bad.setdefault("prop", "properties that can be written as text are not told from others")
            continue
        if text and has is None:
            bad.setdefault("prop", "an option replaces another of the same name")
            continue
        if rq is None:
            bad.setdefault("prop", "required properties are not told from optional ones")
            continue
        own = text and has is False
        cover.add((own, rq))
        if not own:
            if A2 is not A:
                bad.setdefault("prop", "a property that cannot be written as text is an option")
            if B2 is not (agg(C.BODY, g.vi(C.BODY, "Required"), ()) if rq else B) and not (rq and f.get(var(B)) == g.vi(C.BODY, "Required") and B2 is B):
                bad.setdefault("req", "a body file is %s after a%s property without an option" % (show(B2)[:60], " required" if rq else "n optional"))
            continue
        if B2 is not B:
            bad.setdefault("req", "a body file is %s after a property with an option" % show(B2)[:60])
        e = C.entry(A2, A)
        if e is None or not C.name_is(e[0], name):
            bad.setdefault("prop", "it is `%s`" % show(A2)[:200])
            continue
        why = C.option(e[1], f, name, ty, desc, "body" if rq else False)
        if why:
            bad.setdefault("prop", why)
        why = C.use(e[2], f, name, ty, True)
        if why:
            bad.setdefault("use", why)
    if cover != {(x, y) for x in (True, False) for y in (True, False)}:
        bad.setdefault("prop", "nothing happens for some properties")
    need(rep, "G17:prop", "prop" not in bad, D17["prop"], w, bad.get("prop"))
    need(rep, "G17:prop:use", "use" not in bad, D17["propuse"], w, bad.get("use"))
    need(rep, "G17:prop:required", "req" not in bad, D17["propreq"], w, bad.get("req"))


def reported(g, rep, C):
    X = Status(g)
    g.opaque(free=("sanitize",), gen=("cli_method_args", "extract_responses"))
    b = g.method(g.adt("Generator"), "cli_method")[0]
    w = g.where(b)
    outs = g.run(b, [sym("g"), C.m])
    O = g.adt("CliOperation")
    SU, DE, OID = [g.get(C.m, C.M, n) for n in ("summary", "description", "operation_id")]
    bad, cover, limits, todos = {}, set(), [], []
    sides = {}

    def side(fn):
        """which responses a filter selects, by what it says of 200 and 404"""
        if fn not in sides:
            x = sym("n#")
            got = set()
            for n in (200, 404):
                vals = {b for fx, b in truth_of(g, fn, agg(X.S, X.Code, [x])) if holds(fx, {x: n}) is not False}
                if vals != {False}:
                    got.add(n)
            sides[fn] = {frozenset((200,)): "success", frozenset((404,)): "error"}.get(frozenset(got))
        return sides[fn]

    def kind_atom(f, which):
        """the kind of response extract_responses finds, as it is asked for"""
        return {a.a[0] for a in f if a.op == "var" and a.a[0].op == "fld" and named(a.a[0].a[0], "extract_responses") and side(a.a[0].a[0].a[1][-1]) == which}

    def kind_of(f, which):
        ks = kind_atom(f, which)
        return f[var(next(iter(ks)))] if len(ks) == 1 else None

    def put(key, why):
        bad.setdefault(key, why)

    def arm(ns, pats, f):
        ns = undoc(ns)
        for p in pats:
            x = match(fill(p), ns, None, f)
            if x is not None:
                return x
        return None

    for o in outs:
        f = o.facts
        calls = {x for t in [o.ret] for x in subterms(t) if named(x, "cli_method_args") and x.a[1][1] is C.m}
        if len(calls) != 1:
            put("command", "the options of the operation are not used")
            continue
        ca = calls.pop()
        parser, consumer = g.get(ca, C.ARG, "parser"), g.get(ca, C.ARG, "consumer")
        ns = undoc(tree(tidy(resolve(g.get(o.ret, O, "cli_fn"), f))))
        x = match(fill("pub fn $n ( ) -> clap :: Command { clap :: Command :: new ( $s ) $$chain }"), ns, None, f)
        if x is None:
            put("command", "it is `%s`" % render(ns)[:300])
        else:
            ch = chain_of(x["chain"])
            if [c for c in ch if c[0] == "hole"] != [("hole", parser)]:
                put("command", "its options are `%s`" % render(x["chain"])[:300])
            got = {c[1][1]: c[2] for c in ch if c[0] == "call"}
            for k, v in (("about", SU), ("long_about", DE)):
                d = fact(f, lambda a: a.op == "var" and a.a[0] is v)
                h = got.pop(k, None)
                if (d == 1) != (h is not None) or h is not None and not (len(h) == 1 and h[0] == ("h", mk("lit", fld(v, 1, 0)))):
                    put("about", "%s is %s" % (k, render(h)[:100] if h else "left out"))
            if got or len(ch) != len([c for c in ch if c[0] in ("hole", "call")]):
                put("command", "the command says also %s" % ", ".join(got))
        ns = undoc(tree(tidy(resolve(g.get(o.ret, O, "execute_fn"), f))))
        x = match(fill("pub async fn $n ( & self , matches : & clap :: ArgMatches ) -> anyhow :: Result < ( ) > { let mut request = self . client . $op ( ) ; {0} self . config . $hook ( matches , & mut request ) ? ; $$rest }", consumer), ns, None, f)
        if x is None:
            put("execute", "it is `%s`" % render(ns)[:500])
            continue
        if not same(x["hook"], x["n"], f):
            put("execute", "the caller's hook called is `%s`" % render([x["hook"]])[:100])
        pag = fact(f, lambda a: a is var(C.pag))
        s, e = kind_of(f, "success"), kind_of(f, "error")
        if s is None or e is None or pag is None:
            put("execute", "what is reported does not depend on the responses")
            continue
        s, e = X.kind[s], X.kind[e]
        cover.add((pag, s, e))
        ends = lambda xs: [p + t for p in xs for t in ("", " ,")]
        if pag == 0:
            y = next((y for y in (match(fill(p), x["rest"], None, f) for p in ("let $r = request . send ( ) . await ; match $r { Ok ( $a ) => { $$ok } $$m Err ( $b ) => { $$err } $$z }", "match request . send ( ) . await { Ok ( $a ) => { $$ok } $$m Err ( $b ) => { $$err } $$z }")) if y is not None), None)
            if y is None or y["m"] not in ([], [("t", ",")]) or y["z"] not in ([], [("t", ",")]):
                put("execute", "it is `%s`" % render(x["rest"])[:400])
                continue
            good = {"Type": "self . config . success_item ( & $a ) ; Ok ( ( ) )", "None_": "self . config . success_no_item ( & $a ) ; Ok ( ( ) )"}.get(s)
            z = match(fill(good or "todo ! ( )"), y["ok"], dict(a=y["a"]) if good else None, f)
            if z is not None and not good:
                todos.append(s)
            if z is None and good:
                put("success", "after %s: `%s`" % (names_of(s), render(y["ok"])[:200]))
            good = "self . config . error ( & $b ) ; Err ( anyhow :: Error :: new ( $b ) )" if e in ("Type", "None_") else None
            if not good and match(fill("todo ! ( )"), y["err"], None, f) is not None:
                todos.append(e)
            elif match(fill(good or "self . config . error ( & $b ) ; Err ( anyhow :: Error :: new ( $b ) )"), y["err"], dict(b=y["b"]), f) is None:
                put("error", "after an error with %s: `%s`" % (names_of(e), render(y["err"])[:200]))
            continue
        y = match(fill("self . config . list_start :: < $$ty > ( ) ; let mut $st = futures :: StreamExt :: take ( request . stream ( ) , matches . get_one :: < $$lt > ( \"limit\" ) . map_or ( usize :: MAX , | $l | $$limit ) ) ; loop { match futures :: TryStreamExt :: try_next ( & mut $st ) . await { $$arms } }"), x["rest"], None, f)
        if y is None:
            put("list", "it is `%s`" % render(x["rest"])[:600])
            continue
        lits = len(y["lt"]) > 1 or y["lt"][:1] and y["lt"][0][0] != "h"
        limits.append(not lits)
        if lits and (match(fill("$l . get ( ) as usize"), y["limit"], dict(l=y["l"]), f) is None or render(y["lt"]).replace(" ", "") != "std::num::NonZeroU32"):
            put("list", "the limit is `%s` of a `%s`" % (render(y["limit"])[:100], render(y["lt"])[:100]))
        arms = y["arms"]
        c = lambda p: [q for q in (p, p + " ,")]
        err = "Err ( $r ) => { self . config . list_end_error ( & $r ) ; return Err ( anyhow :: Error :: new ( $r ) ) $$semi }" if e in ("Type", "None_") else "Err ( $r ) => { todo ! ( ) }"
        done = "Ok ( None ) => { self . config . list_end_success :: < $$ty2 > ( ) ; return Ok ( ( ) ) $$semi2 }"
        item = "Ok ( Some ( $v ) ) => { self . config . list_item ( & $v ) $$semi3 }"
        got = None
        for perm in itertools.permutations((err, done, item)):
            z = match(fill(" $$c1 ".join(perm[:2]) + " $$c2 " + perm[2] + " $$c3"), arms, None, f)
            if z is not None and all(z[k] in ([], [("t", ",")]) for k in ("c1", "c2", "c3")) and all(z.get(k, []) in ([], [("t", ";")]) for k in ("semi", "semi2", "semi3")):
                got = z
        if got is None:
            put("list", "it reports `%s`" % render(arms)[:500])
            continue
        if s == "Type":
            tid = fld(next(iter(kind_atom(f, "success"))), X.kinds["Type"], 0)
            for k in (y["ty"], got["ty2"]):
                why = C.type_of(k[0], tid, f) if len(k) == 1 else "the type is `%s`" % render(k)[:100]
                if why:
                    put("list", why)
    kinds = list(X.kinds)
    miss = {(0, s, e) for s in kinds for e in kinds} | {(1, "Type", e) for e in kinds}
    miss -= cover
    if miss:
        put("execute", "nothing is generated for %s" % sorted(map(str, miss))[:3])
    for key, k, desc in (("G17:command", "command", "an operation's command has the options of that operation and no other"),
                         ("G17:command:about", "about", "an operation's command shows the operation's summary and description"),
                         ("G17:execute", "execute", "executing a command makes the request from the options' values, lets the caller change it, and sends it once"),
                         ("G17:execute:success", "success", "a successful answer is reported as one, with the value if there is one, and the command succeeds"),
                         ("G17:execute:error", "error", "any other answer is reported as an error, and the command fails"),
                         ("G17:execute:list", "list", "a paginated operation's items are each reported, in order, up to the limit; the end or the error that ends them is reported, and the command fails exactly on an error")):
        need(rep, key, k not in bad, desc, w, bad.get(k))
    need(rep, "G17:execute:raw", not todos, "an answer whose body has no type is reported", w, "executing the command of an operation whose answers have a body without a type, or an upgrade, panics (todo!())")
    need(rep, "G17:execute:limit", bool(limits) and all(limits), "the limit is read as the type of the limit parameter", w, "the value of --limit is taken as a NonZeroU32, whatever its declared type: for another type the command panics")


def names_of(k):
    return {"Type": "a value", "None_": "no value", "Raw": "a body without a type", "Upgrade": "an upgrade"}[k]
