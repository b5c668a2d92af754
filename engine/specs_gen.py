"""Specifications of the generator's properties."""
import json
from terms import *
from interp import Unsupported, NeedSplit, St
from check_base import Ctx, Missing, Outcome, leaves, merge_facts, eqv, var
import quote_models
import iters


# ---------------------------------------------------------------- token trees
OPEN = {"(": ")", "[": "]", "{": "}"}


def flat(t):
    """a token text as a list of tokens: ("t", text) or ("h", term)"""
    out = []
    for p in pieces(t):
        if p.op == "str":
            out.extend(("t", x) for x in quote_models.lex(p.a[0]))
        elif p.op == "lit" and p.a[0].op == "str":
            out.append(("t", json.dumps(p.a[0].a[0])))
        elif p.op == "ident" and p.a[0].op == "str":
            out.append(("t", p.a[0].a[0]))
        elif p.op == "cat":
            out.extend(flat(p))
        elif p.op == "join" and p.a[3] is lstr(", "):
            out.extend(flat(iters.join_as_star(p)))
        else:
            out.append(("h", p))
    return out


def tree(t):
    """tokens grouped by delimiters: ("t", s), ("h", term), ("g", delim, nodes);
    a leading :: of a path and a trailing comma mean nothing and are dropped"""
    toks = flat(t) if isinstance(t, Term) else t
    stack = [[]]
    opens = []
    for k in toks:
        if k[0] == "t" and k[1] in OPEN:
            opens.append(k[1])
            stack.append([])
            continue
        if k[0] == "t" and k[1] in (")", "]", "}"):
            if not opens or OPEN[opens[-1]] != k[1]:
                raise Unsupported("unbalanced generated tokens")
            g = stack.pop()
            while g and g[-1] == ("t", ","):
                g.pop()
            stack[-1].append(("g", opens.pop(), g))
            continue
        if k == ("t", "::"):
            p = stack[-1][-1] if stack[-1] else None
            if p is None or not (p[0] == "h" or (p[0] == "t" and (p[1][0].isalnum() or p[1][0] in "_>"))) or p[1] in ("return", "let", "mut", "as", "in", "match", "if", "for", "dyn", "impl", "where", "else", "use", "pub"):
                continue
        stack[-1].append(k)
    if opens:
        raise Unsupported("unbalanced generated tokens")
    return stack[0]


def render(ns, n=0):
    out = []
    for x in ns:
        if x[0] == "t":
            out.append(x[1])
        elif x[0] == "h":
            out.append("<" + show(x[1])[:120] + ">")
        else:
            out.append(x[1] + " " + render(x[2]) + " " + OPEN[x[1]])
    return " ".join(out)


class Cap:
    """what a pattern placeholder matched"""


def src(s):
    """a pattern from Rust source text: $x one token, tree or hole, $$x any run"""
    s = s.replace("$$", "$ANY_").replace("$", "HOLE__")
    return tree(lstr("".join(x + " " for x in quote_models.lex(s))))


def same(e, a, f):
    if e[0] != a[0]:
        return False
    if e[0] == "t":
        return e[1] == a[1]
    if e[0] == "h":
        return eqv(e[1], a[1], f)
    return e[1] == a[1] and len(e[2]) == len(a[2]) and all(same(x, y, f) for x, y in zip(e[2], a[2]))


def match(pat, ns, b=None, f=None):
    """bindings if the nodes match the pattern, else None. Placeholders already bound must match the same."""
    b = dict(b or {})
    f = f or {}

    def go(i, j, pat, ns, b, k):
        while i < len(pat):
            p = pat[i]
            if p[0] == "t" and p[1].startswith("HOLE__ANY_"):
                nm = p[1][len("HOLE__ANY_"):]
                for e in range(j, len(ns) + 1):
                    b2 = dict(b)
                    b2[nm] = ns[j:e]
                    r = go(i + 1, e, pat, ns, b2, k)
                    if r is not None:
                        return r
                return None
            if j >= len(ns):
                return None
            x = ns[j]
            if p[0] == "t" and p[1].startswith("HOLE__"):
                nm = p[1][6:]
                if nm in b:
                    if not same(b[nm], x, f):
                        return None
                else:
                    b = dict(b)
                    b[nm] = x
            elif p[0] == "g":
                if x[0] != "g" or x[1] != p[1]:
                    return None
                i2, j2 = i, j
                return go(0, 0, p[2], x[2], b, lambda b2: go(i2 + 1, j2 + 1, pat, ns, b2, k))
            elif p[0] == "h":
                if x[0] != "h" or not eqv(p[1], x[1], f):
                    return None
            elif p != x:
                return None
            i += 1
            j += 1
        if j != len(ns):
            return None
        return k(b)

    return go(0, 0, pat, ns, b, lambda b: b)


def matches(s, ns, b=None, f=None):
    return match(src(s), ns, b, f)


def resolve(t, facts, memo=None):
    """choose the alternatives the facts decide"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "phi":
        alts = [(g, v) for g, v in t.a[0] if all(facts.get(x, y) == y for x, y in g)]
        vs = []
        for g, v in alts:
            v = resolve(v, facts, memo)
            if v not in vs:
                vs.append(v)
        r = vs[0] if len(vs) == 1 else phi([(g, resolve(v, facts, memo)) for g, v in alts]) if alts else mk("bottom")
    else:
        r = rebuild(t, lambda x: resolve(x, facts, memo))
    memo[t] = r
    return r


def alternatives(body):
    """the guarded alternatives of a loop body or value"""
    if body.op == "phi":
        return [Outcome(dict(g), v, None) for g, v in body.a[0]]
    if body.op == "cat":
        # alternatives inside a text
        for i, x in enumerate(body.a[0]):
            if x.op == "phi":
                out = []
                for g, v in x.a[0]:
                    for o in alternatives(cat(*body.a[0][:i], v, *body.a[0][i + 1:])):
                        m = merge_guard(g, frozenset(o.facts.items()))
                        if m is not None:
                            out.append(Outcome(dict(m), o.ret, None))
                return out
    return [Outcome({}, body, None)]


REFUSED = "refused"


class Gen(Ctx):
    OPAQUE_FREE = ("sanitize", "parse", "unique_ident_from")

    def __init__(self, facts, crate="progenitor_impl"):
        Ctx.__init__(self, facts, crate)
        self.E.maxstates = 300
        self._memo = {}

    # ------------------------------------------------------------ names
    def A(self, name):
        """the type called name (of this crate, else of a dependency)"""
        c = [k for k in self.E.adts if k.rsplit("::", 1)[-1] == name]
        loc = [k for k in c if self.E.adts[k].get("local")]
        c = loc or c
        if len(c) > 1 and name in ("Parameter", "Response", "Schema", "Type", "StatusCode"):
            c = [k for k in c if k.startswith("openapiv3")] or c
        if len(c) != 1:
            raise Missing("type %s: %d definitions" % (name, len(c)))
        return c[0]

    def vi(self, adt, variant):
        for i, v in enumerate(self.E.adts[adt]["variants"]):
            if v["name"] == variant:
                return i
        raise Missing("%s::%s" % (adt, variant))

    def fi(self, adt, field, variant=0):
        for i, f in enumerate(self.E.adts[adt]["variants"][variant]["fields"]):
            if f[0] == field:
                return i
        raise Missing("field %s of %s" % (field, adt))

    def get(self, t, adt, field, variant=None):
        """field of a value of a struct, or of a variant of an enum"""
        v = 0 if variant is None else (variant if isinstance(variant, int) else self.vi(adt, variant))
        return fld(t, v, self.fi(adt, field, v))

    def nv(self, adt):
        return tuple(range(len(self.E.adts[adt]["variants"])))

    def struct(self, name, base, **kw):
        a = self.adt(name)
        fs = [f[0] for f in self.E.adts[a]["variants"][0]["fields"]]
        for k in kw:
            if k not in fs:
                raise Missing("field %s of %s" % (k, name))
        return agg(a, 0, [kw[f] if f in kw else sym(base, f) for f in fs])

    def opaque(self, free=(), gen=(), traits=()):
        """what the next runs leave uninterpreted; always the conversion of schemas, which has a property of its own"""
        traits = tuple(traits) + ("ToSchema", "Convert")
        o = set()
        for n in free:
            o.add(self.free_fn(n))
        G = self.adt("Generator")
        for n in gen:
            o.add(self.method(G, n)[0])
        for im in self.E.impls:
            if im["trait"] and im["trait"].rsplit("::", 1)[-1] in traits:
                o.update(im["items"].values())
        self.E.opaque_bodies = o
        return o

    def fn(self, name):
        """the name a call to an uninterpreted function has in terms"""
        return self.free_fn(name)

    def trait_fn(self, trait, name):
        return [im["items"][name] for im in self.E.impls if im["trait"] and im["trait"].rsplit("::", 1)[-1] == trait and name in im["items"]]

    # ------------------------------------------------------------ runs shared by several properties
    def memo(self, key, f):
        if key not in self._memo:
            self._memo[key] = f()
        return self._memo[key]

    def settings(self, **kw):
        d = dict(pre_hook=NONE, post_hook=NONE, pre_hook_async=NONE, post_hook_async=NONE)
        d.update(kw)
        return self.struct("GenerationSettings", "S", **d)

    def signature(self, **kw):
        """method_sig_body for one fixed configuration: (outcomes, the operation)"""
        key = ("sig", tuple(sorted((k, v) for k, v in kw.items())))

        def run():
            self.opaque(free=("unique_ident_from",), gen=("extract_responses",))
            g = self.struct("Generator", "g", settings=self.settings(**{k: v for k, v in kw.items() if "hook" in k}))
            H = self.adt("HttpMethod")
            v = kw.get("verb", "Get")
            m = self.struct("OperationMethod", "m", dropshot_websocket=lbool(kw.get("websocket", False)),
                            **(dict(method=agg(H, self.vi(H, v), ())) if v else {}))
            self.E.maxstates = 300 if v else 64
            try:
                outs = self.run(self.method(self.adt("Generator"), "method_sig_body")[0], [g, m, lstr("client "), lbool(kw.get("inner", False))])
            finally:
                self.E.maxstates = 300
            return outs, m
        return self.memo(key, run)

    def bodies(self, **kw):
        """(operation, [(facts, token tree of the request-sending body, outcome)])"""
        outs, m = self.signature(**kw)
        a = self.adt("MethodSigBody")
        i = self.fi(a, "body")
        out = []
        for o in outs:
            if o.ret.op != "agg" or o.ret.a[0] != RES:
                raise Unsupported("method_sig_body returns %s" % show(o.ret)[:200])
            if o.ret.a[1] != 0:
                continue
            t = resolve(fld(fld(o.ret, 0, 0), 0, i), o.facts)
            for gd, v in t.a[0] if t.op == "phi" else ((frozenset(), t),):
                f = merge_facts(o.facts, dict(gd))
                if f is not None:
                    out.append((f, tree(resolve(v, f)), o))
        if not out:
            raise Unsupported("method_sig_body has no successful outcome")
        return m, out

    def sig_where(self):
        return self.where(self.method(self.adt("Generator"), "method_sig_body")[0])

    def operation(self):
        """process_operation: outcomes over a symbolic operation"""
        def run():
            self.opaque(free=("sanitize", "parse"), gen=("get_body_param", "dropshot_pagination_data"), traits=("ToSchema", "Convert", "ReferenceOrExt", "FromStr"))
            b = self.method(self.adt("Generator"), "process_operation")[0]
            out = []
            for o in self.run(b, [sym("gen"), sym("op"), sym("components"), sym("path"), sym("method"), sym("path_params")]):
                # outcomes that were joined on the way
                for a in alternatives(o.ret) if o.ret.op == "phi" else [o]:
                    f = merge_facts(a.facts, o.facts)
                    if f is not None:
                        out.append(Outcome(f, a.ret, o.st))
            return out
        return self.memo("operation", run)

    def op_where(self):
        return self.where(self.method(self.adt("Generator"), "process_operation")[0])

    # ------------------------------------------------------------ comparing
    def emission(self, rep, key, where, desc, texts, spec, base=None):
        """what is generated for an element, whatever it is, is what the specification expects.
        texts: [(guarded text for the element)]; spec(ask) -> pattern source, or (pattern source, hole terms...), or None for anything"""
        ok, detail = self.emits(texts, spec, base)
        rep.ob(key, ok, desc, where, detail)
        return ok

    def emits(self, texts, spec, base=None):
        bad = None
        base = base or {}
        ls = leaves(spec)
        covered = set()
        n = 0
        for o in alternatives(cat(*texts) if len(texts) != 1 else texts[0]):
            for i, (lf, exp) in enumerate(ls):
                f = merge_facts(lf, o.facts)
                f = merge_facts(f, base) if f is not None else None
                if f is None:
                    continue
                covered.add(i)
                n += 1
                if exp is None:
                    continue
                pats = exp if isinstance(exp, list) else [exp]
                got = tree(resolve(o.ret, f))
                if bad is None and not any(match(fill(*p) if isinstance(p, tuple) else src(p), got, None, f) is not None for p in pats):
                    p = pats[0]
                    bad = "when %s: expected `%s`, generated `%s`" % (cond(lf), render(fill(*p) if isinstance(p, tuple) else src(p)), render(got))
        for i, (lf, exp) in enumerate(ls):
            if i not in covered and bad is None and exp is not None:
                p = exp[0] if isinstance(exp, list) else exp
                if (p[0] if isinstance(p, tuple) else p).strip():
                    bad = "nothing is generated when %s" % cond(lf)
        return bad is None, bad or "%d alternatives agree" % n

    def alts(self, rep, key, where, desc, body, spec, ok, errs=(), someitem=None):
        """the alternatives of a loop over the document: accepted exactly when the specification accepts, with the value it expects.
        ok(leaf result, value, facts) -> None or a complaint; a REFUSED leaf must have no alternative, and an error outcome"""
        ls = leaves(spec)
        bad = None
        covered = set()
        n = 0
        for o in alternatives(body):
            for i, (lf, exp) in enumerate(ls):
                f = merge_facts(lf, o.facts)
                if f is None:
                    continue
                n += 1
                covered.add(i)
                if bad is None:
                    cond = ", ".join("%s=%s" % (show(a)[-120:], v) for a, v in sorted(lf.items(), key=lambda p: show(p[0])))
                    if exp == REFUSED:
                        bad = "accepted (as %s) when %s" % (show(o.ret)[:300], cond)
                    else:
                        c = ok(exp, o.ret, f)
                        if c:
                            bad = "when %s: %s" % (cond, c)
        for i, (lf, exp) in enumerate(ls):
            cond = ", ".join("%s=%s" % (show(a)[-120:], v) for a, v in sorted(lf.items(), key=lambda p: show(p[0])))
            if exp == REFUSED:
                hit = False
                for e in errs:
                    f = merge_facts({subst(a, someitem) if someitem else a: v for a, v in lf.items()}, e.facts)
                    if f is not None and any(subst(a, someitem or {}) in e.facts for a in lf):
                        hit = True
                if not hit and bad is None:
                    bad = "no error is returned when %s" % cond
            elif i not in covered and bad is None:
                bad = "never accepted when %s" % cond
        rep.ob(key, bad is None, desc, where, bad or "%d alternatives agree" % n)
        return bad is None


def cond(lf):
    return ", ".join("%s=%s" % (show(a)[-120:], v) for a, v in sorted(lf.items(), key=lambda p: show(p[0]))) or "always"


def fill(s, *terms):
    """pattern of source text with {n} for terms (or node lists)"""
    for i in range(len(terms)):
        s = s.replace("{%d}" % i, " FILL__%d " % i)
    ns = src(s)

    def go(ns):
        out = []
        for x in ns:
            if x[0] == "t" and x[1].startswith("FILL__"):
                t = terms[int(x[1][6:])]
                out.extend(flat(t) if isinstance(t, Term) else t)
            elif x[0] == "g":
                out.append(("g", x[1], go(x[2])))
            else:
                out.append(x)
        return out
    return go(ns)


def settle(ns, f):
    """the nodes once the facts have chosen the alternatives"""
    out = []
    for x in ns:
        if x[0] == "g":
            out.append(("g", x[1], settle(x[2], f)))
        elif x[0] == "h":
            out.extend(tree(resolve(x[1], f)))
        else:
            out.append(x)
    return out


def stars_of(ns):
    return [x[1] for x in ns if x[0] == "h" and x[1].op == "star"]


def stmts(ns):
    """the statements of a block; attributes are dropped"""
    out, cur, i = [], [], 0
    while i < len(ns):
        x = ns[i]
        if not cur and x == ("t", "#") and i + 1 < len(ns) and ns[i + 1][0] == "g" and ns[i + 1][1] == "[":
            i += 2
            continue
        if not cur and x[0] == "h" and x[1].op in ("star", "join", "phi"):
            out.append([x])
        elif x == ("t", ";"):
            if cur:
                out.append(cur)
            cur = []
        else:
            cur.append(x)
            if x[0] == "g" and x[1] == "{" and cur[0] in (("t", "match"), ("t", "if"), ("t", "for"), ("t", "while"), ("t", "loop"), ("t", "unsafe")):
                nx = ns[i + 1] if i + 1 < len(ns) else None
                if nx not in (("t", "else"), ("t", "."), ("t", "?")):
                    out.append(cur)
                    cur = []
        i += 1
    if cur:
        out.append(cur)
    return out


def chain_of(ns):
    """method calls: ("call", name nodes, arguments), ("try",), ("hole", term)"""
    out, i = [], 0
    while i < len(ns):
        x = ns[i]
        if x == ("t", "?"):
            out.append(("try",))
            i += 1
        elif x[0] == "h":
            out.append(("hole", x[1]))
            i += 1
        elif x == ("t", ".") and i + 1 < len(ns):
            nm = ns[i + 1]
            if i + 2 < len(ns) and ns[i + 2][0] == "g" and ns[i + 2][1] == "(":
                out.append(("call", nm, ns[i + 2][2]))
                i += 3
            else:
                out.append(("field", nm))
                i += 2
        else:
            raise Unsupported("request expression `%s`" % render(ns[i:i + 6]))
    return out


class Req:
    """the body of a generated request method, taken apart"""

    def __init__(self, ns):
        self.parts = []
        self.error = None
        for s in stmts(ns):
            self.parts.append(self.part(s))

    def part(self, s):
        m = matches("let mut $req = client . client . $verb ( $$arg ) $$chain . build ( ) ?", s) or matches("let $req = client . client . $verb ( $$arg ) $$chain . build ( ) ?", s)
        if m:
            return ("request", m)
        m = matches("let $res = client . client . execute ( $req ) . await", s)
        if m:
            return ("send", m)
        m = matches("let mut $hm = reqwest :: header :: HeaderMap :: $$how", s)
        if m:
            return ("headers", m)
        m = matches("match $resp . status ( ) . as_u16 ( ) { $$arms }", s)
        if m:
            return ("answer", m)
        m = matches("let $resp = $res ?", s)
        if m:
            return ("received", m)
        m = matches("let $name = $$value", s)
        if m:
            return ("let", m)
        return ("stmt", s)

    def all(self, kind):
        return [(i, p[1]) for i, p in enumerate(self.parts) if p[0] == kind]

    def one(self, kind):
        c = self.all(kind)
        if len(c) != 1:
            raise Unsupported("a generated request method has %d `%s` statements" % (len(c), kind))
        return c[0]


P = sym("param")


def for_each(t, of, sub):
    """the text a repetition produces for the element sub of the collection `of`, or None"""
    if t.op == "join":
        t = iters.join_as_star(t)
    if t.op != "star" or t.a[0].op != "iter" or t.a[0].a[0] is not of:
        return None
    return subst(t.a[2], {t.a[1]: sub})


class Param:
    """the generic parameter and its parts"""

    def __init__(self, g, base=P):
        self.adt = g.adt("OperationParameter")
        self.K = g.adt("OperationParameterKind")
        self.T = g.adt("OperationParameterType")
        self.B = g.adt("BodyContentType")
        self.base = base
        for n in ("name", "api_name", "description", "typ", "kind"):
            setattr(self, n, g.get(base, self.adt, n))
        self.Path, self.Query, self.Header, self.Body = [g.vi(self.K, n) for n in ("Path", "Query", "Header", "Body")]
        self.Octet, self.Json, self.Form, self.Text = [g.vi(self.B, n) for n in ("OctetStream", "Json", "FormUrlencoded", "Text")]
        self.Type, self.Raw = g.vi(self.T, "Type"), g.vi(self.T, "RawBody")
        self.nk, self.nb, self.nt = g.nv(self.K), g.nv(self.B), g.nv(self.T)
        self.ident = mk("ident", self.name)
        self.lit = mk("lit", self.api_name)

    def kindis(self, ask):
        return ask(var(self.kind), self.nk)


CONFIGS = (dict(), dict(websocket=True), dict(inner=True))


def shapes(g, cfg):
    """the request methods generated under a configuration, once per distinct shape"""
    m, bs = g.bodies(**cfg)
    seen = {}
    for f, ns, o in bs:
        r = Req(ns)
        seen.setdefault(freeze([p for p in r.parts if p[0] != "answer"]), (f, r))
    return m, list(seen.values())


def freeze(x):
    if isinstance(x, (list, tuple)):
        return tuple(freeze(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, freeze(v)) for k, v in x.items()))
    return x


def need(rep, key, ok, desc, where, detail=""):
    rep.ob(key, ok, desc, where, detail if not ok else "as required")
    return ok


# ---------------------------------------------------------------- G02
REQWEST = ("get", "post", "put", "patch", "delete", "head")  # the methods of reqwest::Client that start a request
VERBS = ("get", "put", "post", "delete", "options", "head", "patch", "trace")


def g02(g, rep):
    H = g.adt("HttpMethod")
    names = [v["name"] for v in g.E.adts[H]["variants"]]
    need(rep, "G02:verbs", sorted(n.lower() for n in names) == sorted(VERBS), "the HTTP methods are the eight an OpenAPI path item can have", H, "found %s" % names)
    im = [i for i in g.E.impls if i["trait"] and i["trait"].endswith("::FromStr") and i["self"].a[0] == "adt" and i["self"].a[1] == H]
    if len(im) != 1:
        raise Missing("FromStr for HttpMethod")
    fs = im[0]["items"]["from_str"]
    g.opaque()
    s = sym("s")
    outs = g.run(fs, [s])
    iserr = mk("any", lambda x: x.op == "agg" and x.a[0] == RES and x.a[1] == 1)

    def spec(ask):
        for v in names:
            if ask(mk("ieq", s, lstr(v.lower()))):
                return ok(agg(H, g.vi(H, v), ()))
        return iserr
    g.compare(rep, "G02:parse", g.where(fs), outs, spec, "each verb is read as the method of that name, and nothing else is accepted")

    # the request
    m, bs = g.bodies(verb=None)
    hm = var(g.get(m, g.adt("OperationMethod"), "method"))
    nv = g.nv(H)
    for v in names:
        seen = set()
        for f, ns, o in bs:
            f = dict(f)
            if f.setdefault(hm, g.vi(H, v)) != g.vi(H, v):
                continue
            ns = settle(ns, f)
            r = Req(ns)
            k = freeze([r.one("request"), r.one("send")])
            if k in seen:
                continue
            seen.add(k)
            i, q = r.one("request")
            j, e = r.one("send")
            d = r.parts
            verb, arg = q["verb"], q["arg"]
            if verb == ("t", "request"):
                t = matches("reqwest :: Method :: $m , $url", arg)
                good = t is not None and t["m"] == ("t", v.upper())
            else:
                good = verb == ("t", v.lower()) and v.lower() in REQWEST
            need(rep, "G02:request:%s" % v, good, "a %s operation is sent as %s" % (v, v.upper()), g.sig_where(), "generated `client.client.%s(%s)`" % (render([verb]), render(arg)))
            need(rep, "G02:sent:%s" % v, i < j and same(q["req"], e["req"], f), "what is sent is the request that was built", g.sig_where(), "built %s, sent %s" % (render([q["req"]]), render([e["req"]])))
    # the mock server
    b = g.method(g.adt("Generator"), "httpmock_method")[0]
    OM = g.adt("OperationMethod")
    for v in names:
        g.opaque(free=("sanitize",), gen=())
        G = g.struct("Generator", "g", settings=g.settings())
        outs = g.run(b, [G, g.struct("OperationMethod", "m", method=agg(H, g.vi(H, v), ()))])
        good = bool(outs)
        why = "no outcome"
        for o in outs:
            M = g.adt("MockOp")
            t = tree(resolve(fld(o.ret, 0, g.fi(M, "when_impl")), o.facts))
            ms = [x[i + 4][1] for x in groups(t) for i in range(len(x) - 4) if x[i:i + 4] == [("t", "httpmock"), ("t", "::"), ("t", "Method"), ("t", "::")]]
            if ms != [v.upper()]:
                good, why = False, "expects %s" % ms
        need(rep, "G02:mock:%s" % v, good, "the mock server expects a %s operation as %s" % (v, v.upper()), g.where(b), why)
    # from the document
    outs = g.operation()
    key = sym("method")

    def spec2(ask):
        for v in names:
            if ask(mk("ieq", key, lstr(v.lower()))):
                return agg(H, g.vi(H, v), ())
        return None
    bad = None
    for o in outs:
        if o.ret.op == "agg" and o.ret.a[1] == 0:
            got = fld(fld(o.ret, 0, 0), 0, g.fi(OM, "method"))
            if got is fld(call(fs, key), 0, 0):
                continue  # parsed as checked above; an unknown verb is its error
            for lf, exp in leaves(spec2):
                f = merge_facts(lf, o.facts)
                if f is None:
                    continue
                got2 = resolve(got, f)
                if exp is None:
                    if got2.op != "bottom":
                        bad = bad or "an unknown verb becomes %s" % show(got2)[:100]
                elif not eqv(exp, got2, f):
                    bad = bad or "`%s` becomes %s" % ([a.a[1].a[0] for a, x in lf.items() if x], show(got2)[:100])
    need(rep, "G02:operation", bad is None, "an operation's method is the verb it is listed under", g.op_where(), bad)
    walk(g, rep, "G02", lambda c: (4, c["method"]), "each operation is processed with the verb it is listed under")


def groups(ns):
    yield ns
    for x in ns:
        if x[0] == "g":
            yield from groups(x[2])


def generators(g, inner=NONE):
    """[(name, body, outcomes)] of the three generators over a symbolic document"""
    def run():
        out = []
        G = g.struct("Generator", "g", settings=g.settings(inner_type=inner))
        g.opaque(free=("validate_openapi", "sanitize"), gen=[n for n in ("process_operation", "generate_tokens_positional_merged", "generate_tokens_builder_merged", "generate_tokens_builder_separate", "cli_method", "httpmock_method") if g.inherent(g.adt("Generator"), n)])
        for n, extra in (("generate_tokens", []), ("cli", [sym("crate_path")]), ("httpmock", [sym("crate_path")])):
            b = g.method(g.adt("Generator"), n)[0]
            out.append((n, b, g.run(b, [G, sym("spec")] + extra)))
        return out
    return g.memo(("generators", inner), run)


def walk(g, rep, prop, what, desc):
    """every operation of every path is processed with the pieces of the document it consists of"""
    po = g.method(g.adt("Generator"), "process_operation")[0]
    for n, b, outs in generators(g):
        calls = set()
        for o in outs:
            for t in [o.ret] + list(o.facts):
                for x in subterms(t):
                    if x.op == "call" and x.a[0] == po:
                        calls.add(x)
        bad = None if calls else "no operation is processed"
        for x in calls:
            a = x.a[1]
            exp = expected_walk(a)
            if exp is None:
                bad = bad or "operations are taken from %s" % show(a[1])[:200]
                continue
            i, want = what(exp)
            if a[i] is not want:
                bad = bad or "argument %d is %s" % (i, show(a[i])[:200])
        need(rep, "%s:walk:%s" % (prop, n), bad is None, desc, g.where(b), bad)


def expected_walk(a):
    """the parts of the document belonging to the operation a call is made for"""
    op = a[1]
    # op is the second part of an entry of the iteration over a path item
    if not (op.op == "fld" and op.a[2] == 1):
        return None
    entry = op.a[0]
    d = dict(op=op, method=fld(entry, 0, 0), entry=entry)
    p = a[3]
    # the path is the first part of the entry of the paths the item belongs to
    d["path"] = p if p.op == "fld" and p.a[2] == 0 and a[5].op == "fld" and contains(a[5], lambda x: x is fld(p.a[0], 0, 1) or x is p.a[0]) and p.a[0] is not entry else None
    return d


# ---------------------------------------------------------------- shared: the request of a generated method
class Request:
    """what one generated request method puts into the request"""

    def __init__(self, g, m, f, r):
        self.g, self.m, self.f, self.r = g, m, f, r
        self.params = g.get(m, g.adt("OperationMethod"), "params")
        self.i, self.q = r.one("request")
        self.chain = chain_of(self.q["chain"])
        self.verb_url = self.url_term()

    def url_term(self):
        a = self.q["arg"]
        if self.q["verb"] == ("t", "request"):
            t = matches("$$m , $url", a)
            return t["url"] if t else None
        return a[0] if len(a) == 1 else None

    def split(self, nodes_holes):
        """repetitions over the parameters -> the text for the generic parameter; the rest"""
        texts, rest = [], []
        for h in nodes_holes:
            t = for_each(h, self.params, P)
            if t is None:
                rest.append(h)
            else:
                texts.append(t)
        return texts, rest

    def value(self, node):
        """what a name of the body is bound to"""
        for k, p in self.r.parts:
            if k == "let" and same(p["name"], node, self.f):
                return p["value"]
        return None


def requests(g, cfg):
    m, ss = shapes(g, cfg)
    return m, [Request(g, m, f, r) for f, r in ss]


def text_or_none(texts):
    return texts if texts else [lstr("")]


# ---------------------------------------------------------------- G04
def g04(g, rep):
    PT = g.adt("PathTemplate")
    CO = g.adt("Component")
    Const, Par = g.vi(CO, "Constant"), g.vi(CO, "Parameter")
    OM = g.adt("OperationMethod")
    OP = Param(g)
    w = g.sig_where()
    for cfg in CONFIGS:
        m, rs = requests(g, cfg)
        tag = "+".join(cfg) or "plain"
        path = g.get(m, OM, "path")
        comps = g.get(path, PT, "components")
        C = sym("component")
        for r in rs:
            v = r.value(r.verb_url) if r.verb_url else None
            t = None
            if v is not None:
                t = matches("format ! ( $fmt , client . baseurl , $$args )", v) or matches("format ! ( $fmt , client . baseurl )", v)
            if not need(rep, "G04:url:%s" % tag, t is not None, "the request goes to a URL formatted from the client's base URL and the path template", w, "the request goes to `%s`" % render(v if v is not None else r.q["arg"])):
                continue
            fmt = t["fmt"]
            ftext = fmt[1].a[0] if fmt[0] == "h" and fmt[1].op == "lit" else lstr(json.loads(fmt[1])) if fmt[0] == "t" and fmt[1].startswith('"') else None
            ps = pieces(ftext) if ftext is not None else []
            good = len(ps) == 2 and ps[0] is lstr("{}")
            body = for_each(ps[1], comps, C) if good else None
            if not need(rep, "G04:format:%s" % tag, body is not None, "the format is a placeholder for the base URL followed by the pieces of the template in order", w, "the format is %s" % (show(ftext)[:300] if ftext is not None else render([fmt]))):
                continue

            def spec(ask):
                if ask(var(C), g.nv(CO)) == Const:
                    return fld(C, Const, 0)
                return lstr("{}")
            bad = None
            for lf, exp in leaves(spec):
                got = resolve(body, lf)
                if not eqv(exp, got, lf):
                    bad = bad or "for a %s: %s" % (g.variants(CO)[lf[var(C)]]["name"], show(got)[:200])
            need(rep, "G04:pieces:%s" % tag, bad is None, "a literal piece of the template appears as it is, a parameter as one placeholder", w, bad)
            # the arguments: one per parameter, in order
            holes = []
            ok_args = True
            for n in t.get("args", []):
                if n[0] == "h":
                    holes.append(n[1])
                elif n != ("t", ","):
                    ok_args = False
            texts = []
            for h in holes:
                x = for_each(h, comps, C)
                if x is None:
                    ok_args = False
                else:
                    texts.append(x)
            if not need(rep, "G04:args:%s" % tag, ok_args and len(texts) == 1, "the other arguments of the format are produced from the pieces of the template in order", w, "arguments `%s`" % render(t.get("args", []))):
                continue
            bad = None
            n = 0
            for o in alternatives(texts[0]):
                vc = o.facts.get(var(C))
                got = tree(resolve(o.ret, o.facts))
                if vc == Const:
                    if got:
                        bad = bad or "a literal piece also produces the argument `%s`" % render(got)
                    continue
                if vc is None and got:
                    bad = bad or "an argument is produced for every piece"
                x = matches("encode_path ( & $id . to_string ( ) ) ,", got) or matches("encode_path ( & $id . to_string ( ) )", got)
                if x is None:
                    bad = bad or "the argument is `%s`" % render(got)
                    continue
                n += 1
                c = g_lookup(g, OP, r.params, x["id"], fld(C, Par, 0), o.facts)
                if c:
                    bad = bad or c
            if n == 0:
                bad = bad or "no argument is produced for a parameter"
            need(rep, "G04:encoded:%s" % tag, bad is None, "each placeholder is filled by the percent-encoded text of the path argument declared under that name", w, bad)
    # process_operation hands over the parsed path
    bad = None
    outs = g.operation()
    parse = g.fn("parse")
    for o in outs:
        if o.ret.op == "agg" and o.ret.a[1] == 0:
            p = g.get(fld(o.ret, 0, 0), OM, "path")
            if p is not fld(call(parse, sym("path")), 0, 0):
                bad = bad or "path is %s" % show(p)[:200]
    need(rep, "G04:template", bad is None, "the template of an operation is parsed from the path it is listed under", g.op_where(), bad)
    walk(g, rep, "G04", lambda c: (3, c["path"]), "each operation is processed with the path it is listed under")


def g_lookup(g, OP, params, node, name, facts):
    """the identifier a path parameter's value is taken from: that of the path parameter declared as `name`"""
    if node[0] != "h" or node[1].op != "ident":
        return "the value is taken from `%s`" % render([node])
    t = node[1].a[0]
    if t.op == "text":
        t = t.a[0]
    # found<...>/lookup of name in a map from declared names to identifiers, or a search among the parameters
    k = lookup_of(t)
    if k is None:
        return "the value is taken from %s" % show(t)[:300]
    m, key = k
    if key is not name:
        return "the value is looked up under %s" % show(key)[:200]
    body = for_each_entry(m, params)
    if body is None:
        return "the value is looked up in %s" % show(m)[:200]
    for o in alternatives(body):
        kd = o.facts.get(var(OP.kind))
        items = iters_items(o.ret)
        if kd == OP.Path:
            if len(items) != 1 or items[0].op != "agg" or len(items[0].a[2]) != 2 or items[0].a[2][0] is not OP.api_name or items[0].a[2][1] is not OP.name:
                return "a path parameter is known as %s" % show(o.ret)[:200]
        elif items:
            return "parameters that are not in the path take part in filling it"
    return None


def iters_items(t):
    return [x.a[0] if x.op == "e" else x for x in t.a[0]] if t.op == "seq" else [t]


def lookup_of(t):
    """(map, key) if t is the value a map holds for a key"""
    if t.op == "fld" and t.a[1] == 1 and t.a[0].op == "call" and isinstance(t.a[0].a[0], str) and t.a[0].a[0].rsplit("::", 1)[-1] == "get":
        return t.a[0].a[1]
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].rsplit("::", 1)[-1] == "index":
        return t.a[1]
    return None


def for_each_entry(m, params):
    """the entries a map collected from the parameters holds for the generic one"""
    if m.op != "mapof":
        return None
    s = m.a[1]
    if s.op == "seq" and len(s.a[0]) == 1:
        s = s.a[0][0]
    return for_each(s, params, P)


# ---------------------------------------------------------------- G05
WS_HEADERS = {
    "CONNECTION": '"Upgrade"', "UPGRADE": '"websocket"', "SEC_WEBSOCKET_VERSION": '"13"',
    "SEC_WEBSOCKET_KEY": "base64 :: Engine :: encode ( & base64 :: engine :: general_purpose :: STANDARD , rand :: random :: < [ u8 ; 16 ] > ( ) )",
}


def sent_parts(rq):
    """(queries, bodies, fixed headers {name: value nodes}, header map used, leftover descriptions) of a request expression"""
    per, fixed, other, hm = [], {}, [], []
    for c in rq.chain:
        if c[0] == "hole":
            t = for_each(c[1], rq.params, P)
            if t is None:
                other.append(show(c[1])[:160])
            else:
                per.append(t)
        elif c[0] == "call" and c[1] == ("t", "header"):
            x = matches("reqwest :: header :: $name , $$value", c[2])
            if x is None or x["name"][0] != "t":
                other.append(".header(%s)" % render(c[2]))
            else:
                fixed[x["name"][1]] = x["value"]
        elif c[0] == "call" and c[1] == ("t", "headers"):
            hm.append(c[2])
        else:
            other.append(render([c[1]]) if len(c) > 1 else "?")
    return per, fixed, hm, other


def g05(g, rep):
    OP = Param(g)
    w = g.sig_where()
    for cfg in CONFIGS:
        m, rs = requests(g, cfg)
        tag = "+".join(cfg) or "plain"
        ws = cfg.get("websocket", False)
        for n, rq in enumerate(rs):
            per, fixed, hm, other = sent_parts(rq)
            need(rep, "G05:nothing-else:%s" % tag, not other, "nothing but the declared parameters and the fixed headers goes into the request", w, "also: %s" % other)

            # query parameters and bodies
            def spec(ask):
                k = OP.kindis(ask)
                if k == OP.Query:
                    return [(". query ( & progenitor_client :: QueryParam :: new ( {0} , & {1} ) )", OP.lit, OP.ident)]
                if k == OP.Body:
                    b = ask(var(fld(OP.kind, OP.Body, 0)), OP.nb)
                    want = OP.Type if b in (OP.Json, OP.Form) else OP.Raw
                    if ask(var(OP.typ), OP.nt) != want:
                        return None  # get_body_param never makes one (G07)
                    if b == OP.Json:
                        return ". json ( & $body )"
                    if b == OP.Form:
                        return ". form_urlencoded ( & $body ) ?"
                    ct = lstr("application/octet-stream") if b == OP.Octet else fld(fld(OP.kind, OP.Body, 0), OP.Text, 0)
                    return (". header ( reqwest :: header :: CONTENT_TYPE , reqwest :: header :: HeaderValue :: from_static ( {0} ) ) . body ( $body )", mk("lit", ct))
                return ""
            g.emission(rep, "G05:sent:%s" % tag, w, "each query parameter is sent in the query under its declared name, each body in the form its content type asks for, and no other parameter takes those places", text_or_none(per), spec)
            # what the body variable is
            bad = None
            for o in alternatives(cat(*per)) if per else []:
                if o.facts.get(var(OP.kind)) == OP.Body:
                    f = dict(o.facts)
                    got = tree(resolve(o.ret, f))
                    x = matches(". json ( & $body )", got) or matches(". form_urlencoded ( & $body ) ?", got) or matches(". header ( $$h ) . body ( $body )", got)
                    if x is None or not (x["body"] == ("t", "body") or same(x["body"], ("h", OP.ident), f)):
                        bad = bad or "the body is taken from `%s`" % render(got)
            need(rep, "G05:body-argument:%s" % tag, bad is None, "the body that is sent is the body argument", w, bad)

            # the header map
            if need(rep, "G05:header-map:%s" % tag, len(hm) == 1 and len(hm[0]) == 1, "one header map is added to the request", w, "header maps: %s" % [render(x) for x in hm]):
                name = hm[0][0]
                hdr = [(i, p) for i, p in rq.r.all("headers") if same(p["hm"], name, rq.f)]
                ok_ = len(hdr) == 1 and (matches("with_capacity ( $$n )", hdr[0][1]["how"]) is not None or matches("new ( )", hdr[0][1]["how"]) is not None)
                need(rep, "G05:header-map-built:%s" % tag, ok_, "the header map is a new one, built before the request", w, "built by %s" % [render(p["how"]) for i, p in hdr])
                texts, api, extra = [], 0, []
                for i, (k, p) in enumerate(rq.r.parts):
                    if k != "stmt":
                        continue
                    if len(p) == 1 and p[0][0] == "h":
                        t = for_each(p[0][1], rq.params, P)
                        if t is not None:
                            if hdr and hdr[0][0] < i < rq.i:
                                texts.append(t)
                            else:
                                extra.append("headers added outside the construction of the request")
                            continue
                    x = matches("$hm . $how ( reqwest :: header :: HeaderName :: from_static ( $n ) , reqwest :: header :: HeaderValue :: from_static ( client . api_version ( ) ) )", p)
                    if x is not None and same(x["hm"], name, rq.f) and x["how"] in (("t", "append"), ("t", "insert")) and x["n"] == ("t", '"api-version"'):
                        if hdr and hdr[0][0] < i < rq.i:
                            api += 1
                        continue
                    extra.append(render(p)[:200])
                need(rep, "G05:api-version:%s" % tag, api == 1, "the API version header is sent once, with the client's version", w, "added %d times" % api)
                need(rep, "G05:no-other-statement:%s" % tag, not extra, "nothing else happens before the request is sent", w, "; ".join(extra))

                def hspec(ask):
                    if OP.kindis(ask) != OP.Header:
                        return ""
                    if ask(fld(OP.kind, OP.Header, 0)):
                        return ("{2} . append ( {0} , {1} . to_string ( ) . try_into ( ) ? ) ;", OP.lit, OP.ident, [name])
                    return ("if let Some ( $v ) = {1} { {2} . append ( {0} , $v . to_string ( ) . try_into ( ) ? ) ; }", OP.lit, OP.ident, [name])
                g.emission(rep, "G05:header:%s" % tag, w, "each header parameter, and nothing else, is added under its declared name: always if required, when given if optional", text_or_none(texts), hspec)
            # fixed headers
            if ws:
                bad = None
                for h, v in WS_HEADERS.items():
                    if h not in fixed:
                        bad = bad or "%s is not sent" % h
                    elif matches(v, fixed[h]) is None:
                        bad = bad or "%s is `%s`" % (h, render(fixed[h]))
                need(rep, "G05:websocket", bad is None, "a WebSocket operation asks for the upgrade", w, bad)
            allowed = {"ACCEPT"} | (set(WS_HEADERS) if ws else set())
            need(rep, "G05:fixed:%s" % tag, set(fixed) <= allowed, "no other header is sent", w, "also sends %s" % sorted(set(fixed) - allowed))
            if "ACCEPT" in fixed:
                need(rep, "G05:accept-value:%s" % tag, matches('reqwest :: header :: HeaderValue :: from_static ( "application/json" )', fixed["ACCEPT"]) is not None, "the accepted type is JSON", w, render(fixed["ACCEPT"]))
    accept(g, rep, w)
    declared(g, rep)
    method_arguments(g, rep)
    builder_arguments(g, rep)


def accept(g, rep, w):
    """JSON is asked for exactly when the success or the documented error is JSON"""
    K = g.adt("OperationResponseKind")
    er = g.method(g.adt("Generator"), "extract_responses")[0]
    OM = g.adt("OperationMethod")
    for cfg in CONFIGS:
        m, bs = g.bodies(**cfg)
        suc = err = None
        for f, ns, o in bs:
            for a in o.facts:
                for x in subterms(a):
                    if x.op == "call" and x.a[0] == er:
                        fns = [y for y in x.a[1] if y.op == "fn"]
                        nm = fns[-1].a[0] if fns else ""
                        if nm.endswith("is_success_or_default"):
                            suc = x
                        elif nm.endswith("is_error_or_default"):
                            err = x
        tag = "+".join(cfg) or "plain"
        if suc is None or err is None:
            need(rep, "G05:accept:%s" % tag, False, "the accepted type depends on the declared responses", w, "it does not")
            continue
        ks, ke = fld(suc, 0, 1), fld(err, 0, 1)

        def spec(ask):
            s = ask(var(ks), g.nv(K))
            if s == g.vi(K, "Type"):
                return ltrue
            if s == g.vi(K, "None"):
                return lbool(ask(var(ke), g.nv(K)) == g.vi(K, "Type"))
            return lbool(False)
        bad = None
        for lf, exp in leaves(spec):
            n = 0
            for f, ns, o in bs:
                ff = merge_facts(lf, f)
                if ff is None:
                    continue
                n += 1
                r = Req(settle(ns, ff))
                i, q = r.one("request")
                has = any(c[0] == "call" and c[1] == ("t", "header") and c[2] and render(c[2][:5]).endswith("ACCEPT") for c in chain_of(q["chain"]))
                if has != exp.a[0]:
                    bad = bad or "JSON is %sasked for when %s" % ("" if has else "not ", cond(lf))
        need(rep, "G05:accept:%s" % tag, bad is None, "JSON is asked for exactly when the success response is JSON, or it is empty and the error is JSON", w, bad)


ltrue = lbool(True)


def unsort(g, t):
    """(unsorted collection, (how it is sorted, by what))"""
    if t.op == "upd" and str(t.a[0]).startswith("slice::sort"):
        return t.a[2], (t.a[0], t.a[3][0] if t.a[3] else None)
    return t, None


def op_values(g, field):
    """[(facts, value of the field of the operation)] over the successful outcomes of process_operation"""
    OM = g.adt("OperationMethod")
    out = []
    for o in g.operation():
        if o.ret.op == "agg" and o.ret.a[1] == 0:
            v = g.get(fld(o.ret, 0, 0), OM, field)
            for a in alternatives(v):
                f = merge_facts(a.facts, o.facts)
                if f is not None:
                    out.append((f, a.ret))
    if not out:
        raise Unsupported("process_operation never succeeds")
    return out


class Doc:
    """the document's own types"""

    def __init__(self, g):
        self.PA = g.A("Parameter")
        self.PD = g.A("ParameterData")
        self.SC = g.A("ParameterSchemaOrContent")
        self.v = {n: g.vi(self.PA, n) for n in ("Path", "Query", "Header", "Cookie")}

    def data(self, g, e, kind):
        return g.get(e, self.PA, "parameter_data", kind)


SUPPORTED_STYLE = dict(Path=("PathStyle", "Simple"), Query=("QueryStyle", "Form"), Header=("HeaderStyle", "Simple"))


def op_params(g):
    """the declared part of an operation's parameters: [(facts, star over the parameters, has body, body term, names)]"""
    def run():
        out = []
        for f, v in op_values(g, "params"):
            s, names = unsort(g, v)
            out.append((f, s, names))
        return out
    return g.memo("op_params", run)


def declared(g, rep):
    """process_operation turns every declared parameter into one operation parameter"""
    w = g.op_where()
    D = Doc(g)
    OP = Param(g)
    E = sym("declared")
    gbp = g.method(g.adt("Generator"), "get_body_param")[0]
    bads = {}
    seen = set()
    srcs = set()
    for f, s, names in op_params(g):
        items = s.a[0] if s.op == "seq" else None
        if items is None:
            bads.setdefault("shape", "the parameters are %s" % show(s)[:200])
            continue
        stars = [x for x in items if x.op == "star"]
        rest = [x for x in items if x.op != "star"]
        # whatever has been recorded in the generator by then
        found = [x for k in f if k.op == "var" for x in subterms(k) if x.op == "call" and x.a[0] == gbp and x.a[1][1:] == (sym("op"), sym("components"))]
        bodycall = found[0] if found else call(gbp, sym("gen"), sym("op"), sym("components"))
        hasbody = f.get(var(fld(bodycall, 0, 0)))
        want = [mk("e", fld(fld(bodycall, 0, 0), 1, 0))] if hasbody == 1 else []
        if hasbody is None and rest:
            bads.setdefault("body", "the parameters contain %s" % show(rest[0])[:200])
        elif hasbody is not None and [x for x in rest] != want:
            bads.setdefault("body", "with%s a body the parameters also contain %s" % ("" if hasbody else "out", [show(x)[:120] for x in rest]))
        elif hasbody is None:
            # decided inside the value
            bads.setdefault("body", "whether the operation has a body is not examined")
        if len(stars) != 1 or stars[0].a[0].op != "iter":
            bads.setdefault("shape", "the parameters are produced by %s" % [show(x)[:120] for x in stars])
            continue
        st = stars[0]
        srcs.add(st.a[0].a[0])
        body = subst(st.a[2], {st.a[1]: E})
        for o in alternatives(body):
            c = declared_one(g, D, OP, E, o, seen)
            if c:
                bads.setdefault(c[0], c[1])
    need(rep, "G05:declared:source", "shape" not in bads and bool(srcs), "an operation's parameters are made from the declared ones", w, bads.get("shape", "none"))
    need(rep, "G05:declared:body", "body" not in bads, "the request body, if declared, is one of the operation's parameters, and it is the only other one", w, bads.get("body"))
    for k in ("Path", "Query", "Header"):
        d = bads.get(k) or (None if k in seen else "never accepted")
        need(rep, "G05:declared:%s" % k, d is None, "a %s parameter keeps its declared name, schema, requirement and place" % k.lower(), w, d)
    need(rep, "G05:declared:each", "each" not in bads, "every accepted parameter becomes one operation parameter", w, bads.get("each"))
    # the collection of declared parameters
    for s in srcs:
        sources(g, rep, s, w, D)


def declared_one(g, D, OP, E, o, seen):
    items = iters_items(o.ret)
    k = o.facts.get(var(E))
    if len(items) != 1 or items[0].op != "agg" or items[0].a[0] != OP.adt:
        return ("each", "when %s the parameter becomes %s" % (cond(o.facts)[:300], show(o.ret)[:200]))
    x = items[0]
    kind = [n for n, i in D.v.items() if i == k]
    if not kind or kind[0] == "Cookie":
        return ("each", "a parameter of kind %s is accepted" % (kind or "any"))
    kind = kind[0]
    seen.add(kind)
    pd = D.data(g, E, kind)
    name = g.get(pd, D.PD, "name")
    req = g.get(pd, D.PD, "required")
    fmt = g.get(pd, D.PD, "format")
    get = lambda n: g.get(x, OP.adt, n)
    if get("api_name") is not name:
        return (kind, "its API name is %s" % show(get("api_name"))[:200])
    nm = get("name")
    if not (nm.op == "call" and nm.a[0] == g.fn("sanitize") and nm.a[1][0] is name):
        return (kind, "its identifier is %s" % show(nm)[:200])
    typ = get("typ")
    schema = fld(fmt, g.vi(D.SC, "Schema"), 0)
    conv = call([i for i in g.trait_fn("ReferenceOrExt", "item")][0], schema)  # only for its shape
    if typ.op != "agg" or typ.a[1] != OP.Type:
        return (kind, "its type is %s" % show(typ)[:200])
    tid = typ.a[2][0]
    inner = False
    ty = tid
    if ty.op == "fld" and ty.a[0].op == "call" and ty.a[0].a[0].endswith("Type::details"):
        inner = True
        t = ty.a[0].a[1][0]
        while t.op == "fld":
            t = t.a[0]
        if t.op == "call" and t.a[0].endswith("get_type"):
            ty = t.a[1][-1]
    if not (ty.op == "fld" and ty.a[1:] == (0, 0) and ty.a[0].op == "call" and ty.a[0].a[0].endswith("add_type_with_name")):
        return (kind, "its type is %s" % show(typ)[:200])
    sch = [a for a in ty.a[0].a[1] if a.op == "call" and a.a[0].endswith("::to_schema")]
    if not sch or sch[0].a[1][0] is not schema:
        return (kind, "its type is made from %s" % [show(a)[:150] for a in ty.a[0].a[1]])
    kd = get("kind")
    if kd.op != "agg":
        return (kind, "its kind is %s" % show(kd)[:200])
    if kd.a[1] != getattr(OP, kind):
        return (kind, "it is sent as %s" % g.variants(OP.K)[kd.a[1]]["name"])
    if kind != "Path":
        r = kd.a[2][0]
        if inner:
            if r is not lbool(False):
                return (kind, "a parameter of optional type is required as %s" % show(r)[:100])
        elif not eqv(req, r, o.facts):
            return (kind, "it is required as %s" % show(r)[:200])
    return None


def sources(g, rep, s, w, D):
    """the declared parameters are the operation's, and those of its path that the operation does not override"""
    item = lambda e: None
    if s.op == "call" and s.a[0].rsplit("::", 1)[-1] in ("values", "into_values") and s.a[1][0].op == "mapof":
        ent = s.a[1][0].a[1]
    elif s.op == "seq":
        ent = s
    else:
        need(rep, "G05:declared:sources", False, "the declared parameters are collected from the path and the operation", w, "they come from %s" % show(s)[:300])
        return
    lists = []
    keyed = None
    OPER = g.A("Operation")
    own = g.get(sym("op"), OPER, "parameters")
    Z = sym("ref")
    bad = None
    for x in ent.a[0]:
        t = None
        for name, c in (("path", sym("path_params")), ("operation", own)):
            b = for_each(x, c, Z)
            if b is not None:
                t = b
                lists.append(name)
        if t is None:
            bad = bad or "also %s" % show(x)[:200]
            continue
        for o in alternatives(t):
            it = iters_items(o.ret)
            if len(it) != 1 or it[0].op != "agg" or len(it[0].a[2]) != 2:
                bad = bad or "a declared parameter contributes %s" % show(o.ret)[:200]
                continue
            k, v = it[0].a[2]
            ic = [c for c in g.trait_fn("ReferenceOrExt", "item")]
            if not (v.op == "fld" and v.a[1:] == (0, 0) and v.a[0].op == "call" and v.a[0].a[0] in ic and v.a[0].a[1][0] is Z):
                bad = bad or "a declared parameter is %s" % show(v)[:200]
                continue
            n = 0
            for y in subterms(k):
                if y.op == "call" and isinstance(y.a[0], str) and y.a[0].endswith("parameter_data_ref"):
                    n += 1
            keyed = k
            loc = contains(k, lambda y: y is var(v) or y.op in ("discr", "discriminant")) or k.op == "agg"
            if not loc:
                keyed = "name"
    need(rep, "G05:declared:sources", bad is None and lists == ["path", "operation"], "the declared parameters are those of the path, then those of the operation, references followed", w, bad or "collected from %s" % lists)
    need(rep, "G05:declared:key", keyed != "name", "an operation's parameter replaces a parameter of its path only if both name and location agree", w, "parameters are told apart by name alone: of two parameters with one name in different locations only the last is sent")


def tidy(t, memo=None):
    """the text of an identifier made from a text is that text"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: tidy(x, memo))
        if r.op == "call" and r.a[0] == "text" and r.a[1][0].op == "identv":
            r = r.a[1][0].a[0]
        memo[t] = r
    return r


def interface(g, which):
    """the generated method / builder: [(facts, nodes)] per alternative; (operation, call to method_sig_body)"""
    def run():
        g.opaque(free=("unique_ident_from", "sanitize", "make_doc_comment", "make_stream_doc_comment"), gen=("method_sig_body",))
        H = g.adt("HttpMethod")
        m = g.struct("OperationMethod", "m", method=agg(H, g.vi(H, "Get"), ()), tags=mk("seq", ()))
        b = g.method(g.adt("Generator"), which)[0]
        args = [sym("g"), m, sym("inner")] if which == "positional_method" else [sym("g"), m, sym("tag_style"), sym("inner")]
        out = []
        for o in g.run(b, args):
            if o.ret.op != "agg" or o.ret.a[0] != RES:
                raise Unsupported("%s returns %s" % (which, show(o.ret)[:100]))
            if o.ret.a[1] == 0:
                for f, x in choices(tidy(fld(o.ret, 0, 0)), o.facts):
                    out.append((f, tree(x)))
        if not out:
            raise Unsupported("%s never succeeds" % which)
        return b, m, out
    return g.memo(("interface", which), run)


def body_call(g, which, m, client):
    return call(g.method(g.adt("Generator"), "method_sig_body")[0], sym("g"), m, client, sym("inner"))


def hole_args(ns, params):
    """a comma separated list of repetitions over the parameters: texts, or None"""
    texts = []
    for n in ns:
        if n == ("t", ","):
            continue
        t = for_each(n[1], params, P) if n[0] == "h" else None
        if t is None:
            return None
        texts.append(tidy(t))
    return texts


def typed(OP, g, f):
    """is the parameter's type a registered one"""
    return f


def method_arguments(g, rep):
    b, m, alts = interface(g, "positional_method")
    w = g.where(b)
    OP = Param(g)
    params = g.get(m, g.adt("OperationMethod"), "params")
    sig = body_call(g, "positional_method", m, lstr("self "))
    A = g.adt("MethodSigBody")
    part = lambda n: g.get(fld(sig, 0, 0), A, n)
    for n, (f, ns) in enumerate(alts):
        x = match(fill("# [ doc = $doc ] pub async fn $id < $$bounds > ( & 'a self , $$args ) -> Result < ResponseValue < {0} > , Error < {1} > , > { {2} } $$rest", part("success"), part("error"), part("body")), ns, None, f)
        if not need(rep, "G05:method:shape", x is not None, "an operation's method returns the success and error types of its body, and runs that body", w, "it is `%s`" % render(ns)[:700]):
            continue
        texts = hole_args(x["args"], params)
        if not need(rep, "G05:method:arguments", texts is not None and len(texts) == 1, "its arguments are the operation's parameters", w, "they are `%s`" % render(x["args"])[:300]):
            continue
        g.emission(rep, "G05:method:argument", w, "each parameter is one argument under its identifier, optional exactly if the parameter is", texts, lambda ask: argument_spec(g, OP, ask))


def argument_spec(g, OP, ask):
    k = OP.kindis(ask)
    if ask(var(OP.typ), OP.nt) == OP.Raw:
        if k != OP.Body:
            return None
        b = ask(var(fld(OP.kind, OP.Body, 0)), OP.nb)
        if b == OP.Octet:
            return [("{0} : B ,", OP.ident), ("{0} : B", OP.ident)]
        if b == OP.Text:
            return [("{0} : String ,", OP.ident), ("{0} : String", OP.ident)]
        return None
    opt = k in (OP.Query, OP.Header) and not ask(fld(OP.kind, k, 0))
    if opt:
        return [("{0} : Option < $t > ,", OP.ident), ("{0} : Option < $t >", OP.ident)]
    return [("{0} : $t ,", OP.ident), ("{0} : $t", OP.ident)]


def unique(g, name, m, params):
    """the identifier unique_ident_from makes for a name among the parameters' identifiers"""
    b = mk("binder", 0)
    OP = Param(g, b)
    return call(g.fn("unique_ident_from"), lstr(name), mk("seq", (mk("star", mk("iter", params), b, mk("seq", (mk("e", mk("identv", OP.name)),))),)))


BUILDER = """# [ doc = $doc ] # [ derive ( $$derive ) ] pub struct $name < 'a > { $client : & 'a super :: Client , $$fields }
impl < 'a > $name < 'a > {
  pub fn new ( client : & 'a super :: Client ) -> Self { Self { $client : client , $$init } }
  $$setters
  # [ doc = $senddoc ] pub async fn send ( self ) -> Result < ResponseValue < {0} > , Error < {1} > , > {
    let Self { $client , $$names } = self ; $$final {2} }
  $$rest
}"""


def builder(g):
    """[(facts, bindings of the parts of the generated builder, or None and the nodes)]"""
    def run():
        b, m, alts = interface(g, "builder_struct")
        A = g.adt("MethodSigBody")
        params = g.get(m, g.adt("OperationMethod"), "params")
        out = []
        for f, ns in alts:
            client = None
            x = match(src("$$a let Self { $client , $$b } $$c"), [z for z in ns], None, f)
            sigs = [t for t in all_terms(ns) if t.op == "call" and t.a[0] == g.method(g.adt("Generator"), "method_sig_body")[0]]
            if len(set(sigs)) != 1:
                out.append((f, None, ns, None))
                continue
            sig = sigs[0]
            part = lambda n: g.get(fld(sig, 0, 0), A, n)
            x = match(fill(BUILDER, part("success"), part("error"), part("body")), ns, None, f)
            out.append((f, x, ns, sig))
        return b, m, params, out
    return g.memo("builder", run)


def all_terms(ns):
    seen = set()
    for x in ns:
        if x[0] == "h":
            for t in subterms(x[1]):
                if t not in seen:
                    seen.add(t)
                    yield t
        elif x[0] == "g":
            yield from all_terms(x[2])


def builder_arguments(g, rep):
    b, m, params, alts = builder(g)
    w = g.where(b)
    OP = Param(g)
    done = set()
    for f, x, ns, sig in alts:
        if not need(rep, "G05:builder:shape", x is not None, "an operation's builder keeps the client and a field per parameter, and sending runs the request body", w, "it is `%s`" % render(ns)[:700]):
            continue
        k = freeze([x[n] for n in ("client", "fields", "init", "setters", "names", "final")])
        if k in done:
            continue
        done.add(k)
        c = x["client"]
        need(rep, "G05:builder:call", sig.a[1][1] is m and sig.a[1][3] is sym("inner") and c[0] == "h" and tidy(sig.a[1][2]) is tidy(c[1]), "the body is that of the same operation, over the builder's client", w, "it is %s" % show(sig)[:300])
        parts = {}
        for n in ("fields", "init", "setters", "names", "final"):
            parts[n] = hole_args(x[n], params)
            need(rep, "G05:builder:%s" % n, parts[n] is not None and len(parts[n]) == 1, "the builder's %s are those of the operation's parameters" % n, w, "`%s`" % render(x[n])[:300])
        if any(v is None or len(v) != 1 for v in parts.values()):
            continue
        B = mk("any")

        def opt(ask, k):
            return k in (OP.Query, OP.Header) and not ask(fld(OP.kind, k, 0))

        def field(ask):
            k = OP.kindis(ask)
            if ask(var(OP.typ), OP.nt) == OP.Raw:
                return ("{0} : Result < reqwest :: Body , String > ,", OP.ident)
            return ("{0} : Result < Option < $t > , String > ,", OP.ident) if opt(ask, k) else ("{0} : Result < $t , String > ,", OP.ident)

        def init(ask):
            k = OP.kindis(ask)
            if ask(var(OP.typ), OP.nt) != OP.Raw and opt(ask, k):
                return ("{0} : Ok ( None ) ,", OP.ident)
            return [("{0} : Err ( $msg . to_string ( ) ) ,", OP.ident), ("{0} : Ok ( :: std :: default :: Default :: default ( ) ) ,", OP.ident), ("{0} : Ok ( std :: default :: Default :: default ( ) ) ,", OP.ident)]

        def names(ask):
            return ("{0} ,", OP.ident)

        def final(ask):
            OP.kindis(ask)
            return [("let {0} = {0} . map_err ( Error :: InvalidRequest ) ? ;", OP.ident), ("let {0} = {0} . and_then ( | v | $t :: try_from ( v ) . map_err ( | e | e . to_string ( ) ) ) . map_err ( Error :: InvalidRequest ) ? ;", OP.ident)]

        def setter(ask):
            k = OP.kindis(ask)
            if ask(var(OP.typ), OP.nt) == OP.Raw:
                if k != OP.Body:
                    return None
                bt = ask(var(fld(OP.kind, OP.Body, 0)), OP.nb)
                if bt == OP.Octet:
                    return ("pub fn {0} < B > ( mut self , value : B ) -> Self where B : std :: convert :: TryInto < reqwest :: Body > { self . {0} = value . try_into ( ) . map_err ( | _ | $msg . to_string ( ) ) ; self }", OP.ident)
                if bt == OP.Text:
                    return ("pub fn {0} < V > ( mut self , value : V ) -> Self where V : std :: convert :: TryInto < String > { self . {0} = value . try_into ( ) . map_err ( | _ | $msg . to_string ( ) ) . map ( | v | v . into ( ) ) ; self }", OP.ident)
                return None
            if opt(ask, k):
                return ("pub fn {0} < V > ( mut self , value : V , ) -> Self where V : std :: convert :: TryInto < Option < $t > > , { $$x }".replace("Option < $t >", "$t").replace("$$x", "self . {0} = value . try_into ( ) . map ( Some ) . map_err ( | _ | $msg . to_string ( ) ) ; self"), OP.ident)
            return [("pub fn {0} < V > ( mut self , value : V , ) -> Self where V : std :: convert :: TryInto < $t > , { self . {0} = value . try_into ( ) . map_err ( | _ | $msg . to_string ( ) ) ; self }", OP.ident),
                    ("pub fn body < V > ( mut self , value : V ) -> Self where V : std :: convert :: TryInto < $t > , < V as std :: convert :: TryInto < $t >> :: Error : std :: fmt :: Display , { self . body = value . try_into ( ) . map ( From :: from ) . map_err ( | s | format ! ( $msg , s ) ) ; self } pub fn body_map < F > ( mut self , f : F ) -> Self where F : std :: ops :: FnOnce ( $b ) -> $b , { self . body = self . body . map ( f ) ; self }",)]

        for n, sp, d in (("fields", field, "each parameter has a field, optional exactly if the parameter is"),
                         ("init", init, "each optional parameter starts absent, each required one unset"),
                         ("names", names, "each parameter is read from its field"),
                         ("final", final, "each parameter's value, or its conversion error, is the one given"),
                         ("setters", setter, "each parameter has a setter that stores what it is given in that parameter's field")):
            g.emission(rep, "G05:builder:%s:each" % n, w, d, parts[n], sp)


def choices(t, facts, limit=400):
    """the texts a value can be, one alternative at a time: [(facts, text without top-level alternatives)]"""
    out = []
    work = [(dict(facts), t)]
    while work:
        f, x = work.pop()
        x = resolve(x, f)
        ps = list(pieces(x)) if x.op == "cat" else [x]
        for i, p in enumerate(ps):
            if p.op == "phi":
                for g, v in p.a[0]:
                    m = merge_facts(f, dict(g))
                    if m is not None:
                        work.append((m, cat(*ps[:i], v, *ps[i + 1:]) if len(ps) > 1 else v))
                break
        else:
            out.append((f, x))
            if len(out) > limit:
                raise Unsupported("too many alternatives")
    return out


# ---------------------------------------------------------------- G06
HOOKS = ("pre_hook", "pre_hook_async", "post_hook", "post_hook_async")


def hook_pattern(h, inner):
    arg = "& client . inner , " if inner else ""
    tok = "( {0} ) ( %s%s{1} )" % (arg, "& mut " if h == "pre_hook_async" else "& ")
    if h.endswith("_async"):
        return "match %s . await { Ok ( _ ) => ( ) , Err ( $e ) => return Err ( Error :: %s ( $e . to_string ( ) ) ) , }" % (tok, "PreHookError" if h.startswith("pre") else "PostHookError")
    return tok


def g06(g, rep):
    w = g.sig_where()
    runs = [(tuple(HOOKS), False), (tuple(HOOKS), True)] + [((h,), False) for h in HOOKS]
    for hooks, inner in runs:
        kw = {h: some(sym("hook", h)) for h in hooks}
        if inner:
            kw["inner"] = True
        tag = ("all" if len(hooks) > 1 else hooks[0]) + ("+inner" if inner else "")
        m, ss = shapes(g, kw)
        for f, r in ss:
            i, q = r.one("request")
            j, e = r.one("send")
            k, a = r.one("received")
            need(rep, "G06:result:%s" % tag, same(a["res"], e["res"], f), "the response that is examined is the result of sending", w, "it is `%s`" % render([a["res"]]))
            want = {h: match_stmts(r, fill(hook_pattern(h, inner), sym("hook", h), [q["req"] if h.startswith("pre") else e["res"]]), f) for h in hooks}
            where = dict(pre=(i, j), post=(j, k))
            used = set()
            for h in hooks:
                lo, hi = where[h.split("_")[0]]
                at = want[h]
                used.update(at)
                need(rep, "G06:%s:%s" % (h, tag), len(at) == 1 and lo < at[0] < hi, "the configured %s runs once, %s, on %s%s" % (
                    h.replace("_", " "), "after the request is built and before it is sent" if h.startswith("pre") else "after the request is sent and before its result is examined",
                    "the request" if h.startswith("pre") else "the result", ", and its failure ends the call" if "async" in h else ""), w, "statements %s of %s: %s" % (at, len(r.parts), [render(p)[:160] for kd, p in r.parts if kd == "stmt"]))
            # nothing else is between
            extra = [render(p)[:160] for n, (kd, p) in enumerate(r.parts) if i < n < k and n != j and n not in used]
            need(rep, "G06:only:%s" % tag, not extra, "nothing but the configured hooks runs around the request", w, "; ".join(extra))
    interface_inner(g, rep, "G06")


def match_stmts(r, pat, f):
    return [n for n, (kd, p) in enumerate(r.parts) if kd == "stmt" and match(pat, p, None, f) is not None]


def interface_inner(g, rep, prop):
    """whether the client has an inner value is decided by the settings"""
    for which in ("positional_method", "builder_struct"):
        b, m, alts = interface(g, which)
        bad = None
        n = 0
        for f, ns in alts:
            for t in all_terms(ns):
                if t.op == "call" and t.a[0] == g.method(g.adt("Generator"), "method_sig_body")[0]:
                    n += 1
                    if t.a[1][3] is not sym("inner"):
                        bad = bad or "it is given %s" % show(t.a[1][3])
        need(rep, "%s:inner:%s" % (prop, which), bad is None and n > 0, "the request body is told whether the client has an inner value", g.where(b), bad or "no request body")
    S = g.adt("GenerationSettings")
    G = g.adt("Generator")
    for which, methods in (("generate_tokens_positional_merged", ("positional_method",)), ("generate_tokens_builder_merged", ("builder_struct",)), ("generate_tokens_builder_separate", ("builder_struct",))):
        b = g.method(G, which)[0]
        g.opaque(gen=("positional_method", "builder_struct", "builder_impl", "builder_tags"))
        body = g.E.bodies[b]
        args = [sym("g")] + [sym("a", i) for i in range(1, body["argc"])]
        outs = g.run(b, args)
        calls = set()
        for o in outs:
            for t in [o.ret] + list(o.facts):
                for x in subterms(t):
                    if x.op == "call" and x.a[0] in [g.method(G, n)[0] for n in methods]:
                        calls.add(x)
        # whichever way it gets there: it is a parameter here, checked where the parameter is supplied
        bad = None if calls else "no operation is generated"
        idx = set()
        for x in calls:
            v = x.a[1][-1]
            if v.op == "sym" and v.a[0] == "a":
                idx.add(v.a[1])
            else:
                bad = bad or "given %s" % show(v)[:150]
        need(rep, "%s:inner:%s" % (prop, which), bad is None and len(idx) == 1, "every operation is generated for the same client", g.where(b), bad or "given %s" % sorted(idx))
        if bad is None and len(idx) == 1:
            i = idx.pop()
            bad = None
            for inner, want in ((NONE, lbool(False)), (some(sym("inner_type")), lbool(True))):
                gt = [x for x in generators_calls(g, inner) if x.a[0] == b]
                bad = bad or (None if gt else "it is not used")
                for x in gt:
                    if x.a[1][i] is not want:
                        bad = bad or "with%s an inner type it is given %s" % ("" if want.a[0] else "out", show(x.a[1][i])[:200])
            need(rep, "%s:inner:%s:settings" % (prop, which), bad is None, "a client has an inner value exactly when one is configured", g.where(g.method(G, "generate_tokens")[0]), bad)


def generators_calls(g, inner=NONE):
    out = set()
    for n, b, outs in generators(g, inner):
        if n != "generate_tokens":
            continue
        for o in outs:
            for t in [o.ret] + list(o.facts):
                for x in subterms(t):
                    if x.op == "call":
                        out.add(x)
    return out


# ---------------------------------------------------------------- finite domains
def conc(t, env):
    """the integer or truth value of a term when its unknowns have the given values, else None"""
    if t in env:
        return env[t]
    if t.op in ("int", "bool"):
        return t.a[0]
    if t.op == "num":
        return conc(t.a[0], env)
    if t.op in ("arith", "ovf"):
        x, y = conc(t.a[1], env), conc(t.a[2], env)
        if x is None or y is None:
            return None
        o = t.a[0]
        if o in ("Div", "Rem") and y == 0:
            return None
        r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y}.get(o, lambda: None)()
        if r is None:
            return None
        return (r < 0 or r > 65535) if t.op == "ovf" else r
    if t.op in ("or", "and", "not"):
        xs = [conc(x, env) for x in t.a]
        if t.op == "not":
            return None if xs[0] is None else not xs[0]
        if t.op == "or":
            return True if True in xs else None if None in xs else False
        return False if False in xs else None if None in xs else True
    if t.op in ("lt", "ieq", "le"):
        x, y = conc(t.a[0], env), conc(t.a[1], env)
        if x is None or y is None:
            return None
        return x < y if t.op == "lt" else x == y if t.op == "ieq" else x <= y
    return None


def holds(facts, env):
    """do the facts about the given unknowns hold for these values? None if one cannot be evaluated"""
    for a, v in facts.items():
        if any(contains(a, lambda x: x is k) for k in env):
            c = conc(a, env)
            if c is None:
                return None
            if c != v:
                return False
    return True


STATUSES = tuple(range(0, 1000))


def ranges(xs):
    out = []
    for x in sorted(xs):
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return ", ".join("%d" % a if a == b else "%d-%d" % (a, b) for a, b in out)


# ---------------------------------------------------------------- G08
DECODE_OK = dict(Type="ResponseValue :: from_response ( {0} ) . await", None_="Ok ( ResponseValue :: empty ( {0} ) )", Raw="Ok ( ResponseValue :: stream ( {0} ) )", Upgrade="ResponseValue :: upgrade ( {0} ) . await")
DECODE_ERR = dict(Type="Err ( Error :: ErrorResponse ( ResponseValue :: from_response ( {0} ) . await ? ) )", None_="Err ( Error :: ErrorResponse ( ResponseValue :: empty ( {0} ) ) )",
                  Raw="Err ( Error :: ErrorResponse ( ResponseValue :: stream ( {0} ) ) )")
SUCCESS = frozenset([101] + list(range(200, 300)))
FAILURE = frozenset(range(400, 600))


class Status:
    def __init__(self, g):
        self.R = g.adt("OperationResponse")
        self.S = g.adt("OperationResponseStatus")
        self.K = g.adt("OperationResponseKind")
        self.Code, self.Range, self.Default = [g.vi(self.S, n) for n in ("Code", "Range", "Default")]
        self.kind = {g.vi(self.K, n): k for n, k in (("Type", "Type"), ("None", "None_"), ("Raw", "Raw"), ("Upgrade", "Upgrade"))}
        self.kinds = {v: k for k, v in self.kind.items()}
        self.i_status = g.fi(self.R, "status_code")
        self.i_kind = g.fi(self.R, "typ")

    def status(self, r):
        return fld(r, 0, self.i_status)

    def typ(self, r):
        return fld(r, 0, self.i_kind)

    def number(self, s, v):
        return fld(s, v, 0)


def g08(g, rep):
    X = Status(g)
    w = g.sig_where()
    filters = answers(g, rep, X, w)
    classes(g, rep, X, filters)
    hows = extraction(g, rep, X)
    order(g, rep, X, hows)
    g08_types(g, rep, X, w)
    document_responses(g, rep, X)


def numeral(node):
    """the term of a numeric token"""
    if node[0] == "h" and node[1].op == "num":
        return node[1]
    if node[0] == "t" and node[1].isdigit():
        return lint(int(node[1]))
    return None


def answers(g, rep, X, w):
    """the arms of the generated match on the status; the two filters used"""
    ex = g.method(g.adt("Generator"), "extract_responses")[0]
    filters = {"success": set(), "error": set()}
    seen = set()
    bad = {}
    n = {"success": 0, "error": 0}
    for cfg in (dict(), dict(websocket=True)):
        m, bs = g.bodies(**cfg)
        resps = g.get(m, g.adt("OperationMethod"), "responses")
        for f, ns, o in bs:
            r = Req(ns)
            k, a = r.one("answer")
            j, rc = r.one("received")
            key = freeze([a["arms"], a["resp"], rc["resp"]])
            if key in seen and not any(x for x in a["arms"] if x[0] == "h" and x[1].op == "phi"):
                continue
            seen.add(key)
            if not same(a["resp"], rc["resp"], f) or k != len(r.parts) - 1 or j >= k:
                bad.setdefault("result", "the answer is `%s`, examined as statement %d of %d" % (render([a["resp"]]), k + 1, len(r.parts)))
            arms = settle(a["arms"], f)
            if len(arms) < 2 or any(x[0] != "h" or x[1].op != "star" for x in arms[:2]):
                bad.setdefault("shape", "the arms are `%s`" % render(arms)[:300])
                continue
            for what, node in (("success", arms[0]), ("error", arms[1])):
                st = node[1]
                c = st.a[0].a[0] if st.a[0].op == "iter" else None
                if c is None or not (c.op == "fld" and c.a[1:] == (0, 0) and c.a[0].op == "call" and c.a[0].a[0] == ex):
                    bad.setdefault("shape", "the %s arms are made from %s" % (what, show(c)[:200]))
                    continue
                filters[what].add(c.a[0].a[1][-1])
                e = sym("resp#")
                for alt in alternatives(subst(st.a[2], {st.a[1]: e})):
                    n[what] += 1
                    c = arm(X, what, e, alt, rc["resp"], f)
                    if c:
                        bad.setdefault(what, c)
            rest = arms[2:]
            if rest:
                if match(fill("_ => Err ( Error :: UnexpectedResponse ( {0} ) )", [rc["resp"]]), rest, None, f) is None:
                    bad.setdefault("rest", "undeclared statuses get `%s`" % render(rest))
            elif not last_is_default(X, resps, f):
                bad.setdefault("rest", "nothing is generated for undeclared statuses although the operation need not end with a default response")
    need(rep, "G08:answer", "result" not in bad, "the generated method ends by examining the status of the response it received", w, bad.get("result"))
    need(rep, "G08:arms", "shape" not in bad, "the answers are one arm per declared success, then one per declared error", w, bad.get("shape"))
    for what in ("success", "error"):
        need(rep, "G08:arm:%s" % what, what not in bad and n[what] > 0, "each declared %s status selects exactly that %s, decoded as its kind requires" % (what, what), w, bad.get(what, "no arms"))
    need(rep, "G08:unexpected", "rest" not in bad, "a status no arm covers is an unexpected-response error carrying the response, unless a default response covers every status", w, bad.get("rest"))
    return filters


def arm(X, what, e, alt, resp, f):
    """complaint about the arm generated for a response"""
    s, t = X.status(e), X.typ(e)
    sv, kv = alt.facts.get(var(s)), alt.facts.get(var(t))
    if sv is None:
        return "an arm does not depend on the declared status: %s" % show(alt.ret)[:200]
    if kv is None:
        return "an arm does not depend on the kind of the response: %s" % show(alt.ret)[:200]
    kind = X.kind[kv]
    ns = tree(resolve(alt.ret, merge_facts(f, alt.facts) or {}))
    if not ns:
        # left to the catch-all
        if what == "error" and sv == X.Default and kind == "Upgrade":
            return None
        return "nothing is generated for a %s response" % kind
    dec = (DECODE_OK if what == "success" else DECODE_ERR).get(kind)
    m = matches("$$pat => { $$dec }", ns, None, f) or matches("$$pat => { $$dec } ,", ns, None, f)
    if m is None:
        return "the arm is `%s`" % render(ns)
    if dec is None or match(fill(dec, [resp]), m["dec"], None, f) is None:
        return "a %s response is decoded as `%s`" % (kind, render(m["dec"]))
    pat = m["pat"]
    one = numeral(pat[0]) if len(pat) == 1 else None
    two = (numeral(pat[0]), numeral(pat[2])) if len(pat) == 3 and pat[1] == ("t", "..=") else (None, None)
    if sv == X.Default:
        if what == "error":
            return None if pat == [("t", "_")] else "the default error has pattern `%s`" % render(pat)
        if two[0] is None or two[1] is None or (conc(two[0], {}), conc(two[1], {})) != (200, 299):
            return "the default success has pattern `%s`" % render(pat)
        return None
    num = X.number(s, sv)
    allowed = SUCCESS if what == "success" else FAILURE
    for x in (sorted(allowed) if sv == X.Code else ([2] if what == "success" else [4, 5])):
        h = holds(alt.facts, {num: x})
        if h is None:
            return "an arm depends on %s" % cond(alt.facts)
        if not h:
            continue
        if sv == X.Code:
            if one is None or conc(one, {num: x}) != x:
                return "declared status %d has pattern `%s`" % (x, render(pat))
        elif two[0] is None or two[1] is None or (conc(two[0], {num: x}), conc(two[1], {num: x})) != (x * 100, x * 100 + 99):
            return "declared range %dXX has pattern `%s`" % (x, render(pat))
    return None


def last_is_default(X, resps, f):
    for a, v in f.items():
        if a.op == "var" and v == X.Default:
            t = a.a[0]
            if t.op == "fld" and t is X.status(t.a[0]):
                r = t.a[0]
                if r.op == "fld" and r.a[1:] == (1, 0) and f.get(var(r.a[0])) == 1:
                    l = r.a[0]
                    if l.op == "fold" and l.a[0] is mk("iter", resps) and l.a[2] is NONE and l.a[3] is some(l.a[1]):
                        return True
                    if l.op == "call" and l.a[0] in ("slice::last", "alloc::vec::Vec::last") and l.a[1][0] is resps:
                        return True
    return False


def truth_of(g, fn, arg):
    """[(facts, truth value)] of a predicate applied to a value"""
    st = St()
    loc = g.E.newref(st, arg)
    out = []
    for o in g.outs(g.E.call_value(st, fn, [loc], None)):
        for a in alternatives(o.ret):
            f = merge_facts(a.facts, o.facts)
            if f is None:
                continue
            if a.ret.op == "bool":
                out.append((f, a.ret.a[0]))
            else:
                for b in (True, False):
                    f2 = merge_facts(f, {a.ret: b})
                    if f2 is not None:
                        out.append((f2, b))
    return out


def classes(g, rep, X, filters):
    """which declared statuses are successes and which are errors"""
    for what, codes, rng in (("success", SUCCESS, {2}), ("error", FAILURE, {4, 5})):
        fs = filters[what]
        w = g.sig_where()
        if len(fs) != 1:
            need(rep, "G08:class:%s" % what, False, "the declared responses are selected by one predicate", w, "%d predicates" % len(fs))
            continue
        fn = next(iter(fs))
        g.opaque()
        for nm, v, dom, want in (("Code", X.Code, STATUSES, codes), ("Range", X.Range, tuple(range(1, 6)), rng), ("Default", X.Default, (0,), {0})):
            x = sym("n#")
            outs = truth_of(g, fn, agg(X.S, v, [x] if v != X.Default else []))
            got, unknown = set(), None
            for n in dom:
                vals = set()
                for f, b in outs:
                    h = holds(f, {x: n})
                    if h is None:
                        unknown = cond(f)
                    elif h:
                        vals.add(b)
                if vals == {True}:
                    got.add(n)
                elif vals != {False}:
                    unknown = unknown or "%s(%d) is %s" % (nm, n, sorted(vals))
            need(rep, "G08:class:%s:%s" % (what, nm), unknown is None and got == set(want), "declared statuses treated as %s: %s" % (what, dict(Code=ranges(codes), Range="ranges " + ranges(rng), Default="the default")[nm]), w,
                 unknown or "differs for %s" % ranges(got ^ set(want)))


SORTS = ("slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_unstable_by", "slice::sort_by_key", "slice::sort_unstable_by_key", "slice::sort_by_cached_key")


def extraction(g, rep, X):
    """extract_responses keeps every selected response, the default last"""
    b = g.method(g.adt("Generator"), "extract_responses")[0]
    w = g.where(b)
    g.opaque()
    m, filt = sym("m"), sym("filter")
    resps = g.get(m, g.adt("OperationMethod"), "responses")
    outs = g.run(b, [sym("g"), m, filt])
    bad = {}
    hows = set()
    n = 0
    for o in outs:
        if o.ret.op != "agg" or len(o.ret.a[2]) != 2:
            raise Unsupported("extract_responses returns %s" % show(o.ret)[:100])
        v, t = o.ret.a[2]
        popped = False
        if v.op == "upd" and v.a[0] == "alloc::vec::Vec::pop":
            popped = True
            v = v.a[2]
        if not (v.op == "upd" and v.a[0] in SORTS):
            bad.setdefault("sorted", "the responses are %s" % show(v)[:200])
            continue
        hows.add(unsort(g, v)[1])
        inner = v.a[2]
        it = inner.a[0][0] if inner.op == "seq" and len(inner.a[0]) == 1 else None
        good = it is not None and it.op == "star" and it.a[0] is mk("iter", resps)
        if good:
            e = sym("resp#")
            p = call("apply", filt, X.status(e))
            alts = {a.facts.get(p): a.ret for a in alternatives(subst(it.a[2], {it.a[1]: e}))}
            good = alts == {True: mk("seq", (mk("e", e),)), False: mk("seq", ())}
        if not good:
            bad.setdefault("filter", "the selected responses are %s" % show(inner)[:300])
            continue
        n += 1
        if popped:
            # only a default after a 2XX range may be dropped
            at = {}
            for a, x in o.facts.items():
                if a.op == "var" and a.a[0].op == "fld" and a.a[0] is X.status(a.a[0].a[0]):
                    el = a.a[0].a[0]
                    back = position(el, v)
                    if back is not None:
                        at[back] = (x, el)
            ok1 = at.get(1, (None,))[0] == X.Default
            ok2 = False
            if 2 in at and at[2][0] == X.Range:
                num = X.number(X.status(at[2][1]), X.Range)
                ok2 = o.facts.get(mk("ieq", num, lint(2))) is True
            if not (ok1 and ok2):
                bad.setdefault("pop", "the last response is dropped when %s" % cond({a: x for a, x in o.facts.items() if a.op == "var"}))
        # the kind
        src = o.ret.a[2][0]
        c = kind_of_all(g, X, t, src, o.facts)
        if c:
            bad.setdefault("kind", c)
    need(rep, "G08:extract:all", "filter" not in bad and n > 0, "every declared response the predicate selects is answered", w, bad.get("filter", "none"))
    need(rep, "G08:extract:order", "sorted" not in bad, "the selected responses are put in order of their status", w, bad.get("sorted"))
    need(rep, "G08:extract:drop", "pop" not in bad, "only a default response that a preceding 2XX range makes unreachable is left out", w, bad.get("pop"))
    need(rep, "G08:extract:kind", "kind" not in bad, "the kind of the selected responses is the kind of each of them (or none if there are none)", w, bad.get("kind"))
    return hows


def position(el, seq):
    """how far from the end of a sequence an indexed element is"""
    if el.op == "call" and el.a[0] == "core::ops::index::Index::index" and el.a[1][0] is seq:
        i = el.a[1][1]
        if i.op == "arith" and i.a[0] == "Sub" and i.a[1] is call("len", seq) and i.a[2].op == "int":
            return i.a[2].a[0]
    if el.op == "index" and el.a[0] is seq:
        i = el.a[1]
        i = i.a[0] if isinstance(i, Term) and i.op == "int" else i
        if isinstance(i, int) and i < 0:
            return -i
    if el.op == "fld" and el.a[1:] == (1, 0) and el.a[0].op == "call" and el.a[0].a[0] in ("slice::last",) and el.a[0].a[1][0] is seq:
        return 1
    return None


def kind_of_all(g, X, t, src, facts):
    """complaint about the common kind of the responses"""
    # the first of the set of kinds, when the set has at most one element
    heads = [x for x in subterms(t) if x.op == "call" and x.a[0] == "next"]
    for a in facts:
        heads += [x for x in subterms(a) if x.op == "call" and x.a[0] == "next"]
    sets = set(h.a[1][0] for h in heads if h.a[1][0].op == "mapof")
    sets = [s for s in sets if s.a[1].op == "seq" and len(s.a[1].a[0]) == 1 and s.a[1].a[0][0].op == "star" and s.a[1].a[0][0].a[0] is mk("iter", src)]
    if len(sets) != 1:
        return "the kind is %s" % show(t)[:200]
    st = sets[0].a[1].a[0][0]
    e = sym("resp#")
    for a in alternatives(subst(st.a[2], {st.a[1]: e})):
        els = iters_items(a.ret)
        if len(els) != 1 or not eqv(X.typ(e), els[0], a.facts):
            k = a.facts.get(var(X.typ(e)))
            if len(els) != 1 or k is None or els[0].op != "agg" or els[0].a[1] != k or not all(y is fld(X.typ(e), k, i) for i, y in enumerate(els[0].a[2])):
                return "a response of kind %s counts as %s" % (k, show(a.ret)[:100])
    one = any(a.op == "lt" and a.a[0] is lint(1) and a.a[1].op in ("call", "len") and contains(a.a[1], lambda x: x is sets[0]) and v is False for a, v in facts.items())
    if not one:
        return "several kinds are not refused"
    head = call("next", sets[0])
    got = facts.get(var(head))
    if got == 0:
        return None if t is agg(X.K, X.kinds["None_"], ()) else "without responses the kind is %s" % show(t)[:100]
    if got == 1:
        return None if eqv(fld(head, 1, 0), t, facts) else "the kind is %s" % show(t)[:100]
    return "the kind is %s" % show(t)[:100]


def order(g, rep, X, hows):
    """in the order used for sorting, the default comes after everything else"""
    im = [i for i in g.E.impls if i["trait"] and i["trait"].endswith("cmp::Ord") and i["self"].a[0] == "adt" and i["self"].a[1] == X.R]
    if len(im) != 1:
        raise Missing("Ord for OperationResponse")
    b = im[0]["items"]["cmp"]
    w = g.where(b)
    g.opaque()
    if len(hows) > 1:
        raise Unsupported("responses are sorted in %d ways" % len(hows))
    how, fn = (sorted(hows, key=str) or [("slice::sort", None)])[0]
    if how not in ("slice::sort", "slice::sort_unstable"):
        w = g.where(g.method(g.adt("Generator"), "extract_responses")[0])

    def compare(p, q):
        if how in ("slice::sort", "slice::sort_unstable"):
            return g.run(b, [p, q])
        import specs_gen3
        return [Outcome(f, v, None) for f, v in specs_gen3.Sorted.compare(g, how, fn, p, q)]
    fs = [f[0] for f in g.E.adts[X.R]["variants"][0]["fields"]]
    mkresp = lambda s, nm: agg(X.R, 0, [s if i == X.i_status else sym(nm, f) for i, f in enumerate(fs)])
    D = agg(X.S, X.Default, ())
    for nm, v in (("code", X.Code), ("range", X.Range)):
        x = sym("n#")
        o1 = mkresp(agg(X.S, v, [x]), "a")
        o2 = mkresp(D, "b")
        dom = STATUSES if v == X.Code else tuple(range(1, 6))
        bad = None
        for (p, q), want in (((o1, o2), -1), ((o2, o1), 1)):
            outs = compare(p, q)
            for n in dom:
                vals = set()
                for o in outs:
                    h = holds(o.facts, {x: n})
                    if h is None:
                        vals.add(None)
                    elif h:
                        vals.add(sign(o.ret, {x: n}))
                if vals != {want} and bad is None:
                    bad = "%s %d compares %s with the default" % (nm, n, sorted(map(str, vals)))
        need(rep, "G08:order:%s" % nm, bad is None, "the default response sorts after every %s, so its catch-all arm is the last one" % nm, w, bad)


def sign(t, env):
    """-1, 0, 1 for an Ordering"""
    if t.op == "agg" and t.a[0].endswith("Ordering"):
        return t.a[1] - 1
    if t.op == "int":
        return t.a[0]
    if t.op == "call" and t.a[0] in ("core::cmp::Ord::cmp",):
        x, y = conc(t.a[1][0], env), conc(t.a[1][1], env)
        if x is not None and y is not None:
            return (x > y) - (x < y)
    return None


def g08_types(g, rep, X, w):
    """the generated return type carries the kinds found"""
    b, a = g.method(g.adt("Generator"), "extract_responses")[0], g.adt("MethodSigBody")
    want = dict(None_="( )", Raw="ByteStream", Upgrade="reqwest :: Upgraded")
    bad, n = None, 0
    m, bs = g.bodies()
    for f, ns, o in bs:
        ms = fld(o.ret, 0, 0)
        for what in ("success", "error"):
            got = tree(resolve(g.get(ms, a, what), f))
            calls = [k for k in f if k.op == "var" and k.a[0].op == "fld" and k.a[0].a[1:] == (0, 1) and k.a[0].a[0].op == "call" and k.a[0].a[0].a[0] == b]
            hit = None
            for k in calls:
                fn = k.a[0].a[0].a[1][-1]
                if fn in what_filter(g, X, what):
                    hit = k
            if hit is None:
                bad = bad or "the %s type does not depend on the declared responses" % what
                continue
            n += 1
            kind = X.kind[f[hit]]
            if kind == "Type":
                id_ = fld(hit.a[0], f[hit], 0)
                ok_ = len(got) == 1 and got[0][0] == "h" and contains(got[0][1], lambda x: x is id_) and "ident" in show(got[0][1])[:60]
            else:
                ok_ = match(src(want[kind]), got, None, f) is not None
            if not ok_:
                bad = bad or "the %s type for kind %s is `%s`" % (what, kind, render(got)[:200])
    need(rep, "G08:types", bad is None and n > 0, "the generated method's success and error types are those of the declared responses", w, bad)


def what_filter(g, X, what):
    def run():
        ex = g.method(g.adt("Generator"), "extract_responses")[0]
        m, bs = g.bodies()
        out = {"success": set(), "error": set()}
        for f, ns, o in bs:
            r = Req(ns)
            arms = settle(r.one("answer")[1]["arms"], f)
            for wh, node in zip(("success", "error"), arms[:2]):
                if node[0] == "h" and node[1].op == "star" and node[1].a[0].op == "iter" and node[1].a[0].a[0].op == "fld":
                    out[wh].add(node[1].a[0].a[0].a[0].a[1][-1])
        return out
    return g.memo("what_filter", run)[what]


def document_responses(g, rep, X):
    """process_operation turns the document's responses into the operation's"""
    w = g.op_where()
    O = g.A("Operation")
    RS = g.A("Responses")
    RP = g.A("Response")
    MT = g.A("MediaType")
    SC = g.A("StatusCode")
    op = sym("op")
    rs = g.get(op, O, "responses")
    dflt = g.get(rs, RS, "default")
    listed = g.get(rs, RS, "responses")
    ws = [t for o in g.operation() for a in o.facts if a.op == "var" for t in [a.a[0]] if t.op == "call" and t.a[1] and t.a[1][-1] is lstr("x-dropshot-websocket")]
    if not ws:
        raise Unsupported("x-dropshot-websocket is not looked up")
    WS = ws[0]
    codes = [g.vi(SC, "Code"), g.vi(SC, "Range")]
    bad = {}
    cover = set()
    nn = dict(default=0, listed=0)
    done = set()
    for f, v in op_values(g, "responses"):
        f = {a: x for a, x in f.items() if contains(a, lambda t: t is rs or t is WS)}
        if (v, frozenset(f.items())) in done:
            continue
        done.add((v, frozenset(f.items())))
        if v.op != "seq":
            bad.setdefault("shape", "the responses are %s" % show(v)[:200])
            continue
        hasd, isws = f.get(var(dflt)), f.get(var(WS))
        if isws is None:
            bad.setdefault("shape", "whether the operation is a websocket is not examined")
            continue
        parts = []
        for it in v.a[0]:
            parts.append(it)
        # the declared ones
        stars = [i for i, it in enumerate(parts) if it.op == "star"]
        if len(stars) != 1 or not from_listed(parts[stars[0]].a[0], listed):
            bad.setdefault("shape", "the responses are made from %s" % [show(x)[:120] for x in parts])
            continue
        k = stars[0]
        before, star, after = parts[:k], parts[k], parts[k + 1:]
        # default
        b4 = []
        for x in before:
            b4.extend([(a.facts, iters_items(a.ret)) for a in alternatives(x.a[0])] if x.op == "spread" else [({}, [x.a[0]])])
        if hasd is None and not before:
            bad.setdefault("default", "the default response is ignored")
        elif hasd == 0 and before:
            bad.setdefault("default", "a response is added without a default one")
        elif hasd == 1 and not before:
            bad.setdefault("default", "the default response is ignored")
        elif hasd == 1:
            if len(before) != 1:
                bad.setdefault("default", "the default response is listed %d times" % len(before))
            for af, els in b4:
                ff = merge_facts(f, af)
                if ff is None:
                    continue
                nn["default"] += 1
                if len(els) != 1:
                    bad.setdefault("default", "the default response becomes %d responses" % len(els))
                    continue
                c = one_response(g, X, RP, MT, els[0], agg(X.S, X.Default, ()), fld(dflt, 1, 0), ff, isws, cover)
                if c:
                    bad.setdefault("default", c)
        e = sym("entry#")
        fresh = (star, isws) not in done
        done.add((star, isws))
        for alt in alternatives(subst(star.a[2], {star.a[1]: e})) if fresh else ():
            els = iters_items(alt.ret)
            nn["listed"] += 1
            if len(els) != 1:
                bad.setdefault("listed", "a declared response becomes %d responses when %s" % (len(els), cond(alt.facts)))
                continue
            sc = fld(e, 0, 0)
            sv = alt.facts.get(var(sc))
            if sv is None:
                bad.setdefault("listed", "the status of a declared response is not examined")
                continue
            want = agg(X.S, X.Code if sv == codes[0] else X.Range, [fld(sc, sv, 0)])
            c = one_response(g, X, RP, MT, els[0], want, fld(e, 0, 1), alt.facts, isws, cover)
            if c:
                bad.setdefault("listed", c)
        # what is added
        want = []
        some_ok = declared_success(g, X, f, listed, codes, hasd, bad)
        if some_ok is None:
            bad.setdefault("added", "whether a success is declared is not examined")
            continue
        raw2 = lambda r: X.status(r) is agg(X.S, X.Range, [lint(2)]) and X.typ(r) is agg(X.K, X.kinds["Raw"], ())
        up101 = lambda r: X.status(r) is agg(X.S, X.Code, [lint(101)]) and X.typ(r) is agg(X.K, X.kinds["Upgrade"], ())
        if not some_ok:
            want.append((raw2, "an unspecified success (any 2xx, raw)"))
        if isws:
            want.append((up101, "the upgrade (101)"))
        got = [x.a[0] if x.op == "e" else None for x in after]
        if len(got) != len(want) or any(r is None or not p(r) for r, (p, _) in zip(got, want)):
            bad.setdefault("added", "with%s a declared success and %s websocket, added: %s" % ("" if some_ok else "out", "a" if isws else "no", [show(x)[:100] for x in after]))
    need(rep, "G08:document:shape", "shape" not in bad, "an operation's responses are made from the declared ones", w, bad.get("shape"))
    need(rep, "G08:document:default", "default" not in bad and nn["default"] > 0, "the default response is one of the operation's responses, exactly when declared, of the kind its content requires", w, bad.get("default", "never"))
    need(rep, "G08:document:listed", "listed" not in bad and nn["listed"] > 0, "each listed response keeps its status code or range and is of the kind its content requires", w, bad.get("listed", "never"))
    need(rep, "G08:document:added", "added" not in bad, "a success is added only when none is declared, and the 101 upgrade for a websocket operation (after everything else)", w, bad.get("added"))
    for c in ("json", "json;", "other", "none", "upgrade"):
        need(rep, "G08:document:kind:%s" % c, c in cover, "responses whose content is %s are accepted" % dict(json="application/json", other="of another type", none="empty", upgrade="a websocket").get(c, "application/json with parameters"), w, "never")


def from_listed(it, listed):
    if it.op != "iter":
        return False
    t = it.a[0]
    return t is listed or (t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter") and t.a[1][0] is listed)


def one_response(g, X, RP, MT, r, status, ref, f, isws, cover):
    """complaint about the operation response made from a declared one"""
    if not eqv(status, X.status(r), f):
        return "status %s becomes %s" % (show(status)[:100], show(X.status(r))[:100])
    k = X.typ(r)
    if k.op != "agg":
        return "the kind is %s" % show(k)[:100]
    items = [t for t in all_facts_terms(f) if t.op == "call" and t.a[0].rsplit("::", 1)[-1] == "item" and t.a[1][0] is ref]
    if not items or f.get(var(items[0])) != 0:
        return "the response is not looked up in the document"
    content = g.get(fld(items[0], 0, 0), RP, "content")
    it = call("indexmap::map::IndexMap::iter", content)
    loop = var(call("next", mk("during", mk("iter", it))))
    js = f.get(loop)
    kind = X.kind[k.a[1]]
    if js == 1:
        x = mk("someitem", mk("iter", it))
        a1, a2 = f.get(mk("ieq", fld(x, 0, 0), lstr("application/json"))), f.get(call("str::starts_with", fld(x, 0, 0), lstr("application/json;")))
        if a1 is True:
            cover.add("json")
        elif a2 is True:
            cover.add("json;")
        else:
            return "a response is decoded although its content type is not application/json"
        schema = g.get(fld(x, 0, 1), MT, "schema")
        if kind != "Type":
            return "JSON content becomes kind %s" % kind
        if f.get(var(schema)) != 1:
            return "JSON content without a schema is accepted"
        id_ = k.a[2][0]
        if not (id_.op == "fld" and contains(id_, lambda t: t.op == "call" and t.a[0].rsplit("::", 1)[-1] == "to_schema" and t.a[1][0] is fld(schema, 1, 0))):
            return "the type of a JSON response is %s" % show(id_)[:200]
        return None
    if isws:
        cover.add("upgrade")
        return None if kind == "Upgrade" else "a websocket response becomes kind %s" % kind
    ne = nonempty(content, f)
    if ne is None:
        return "whether the response has content is not examined"
    cover.add("other" if ne else "none")
    if kind != ("Raw" if ne else "None_"):
        return "%s content becomes kind %s" % ("other" if ne else "no", kind)
    return None


def all_facts_terms(f):
    for a in f:
        for t in subterms(a):
            yield t


def nonempty(c, f):
    p = "indexmap::map::IndexMap::"
    for a, v in f.items():
        if a is var(call(p + "first", c)) or a is var(call("next", call(p + "iter", c))) or a is var(call("next", call(p + "keys", c))):
            return v == 1
        if a is call("is_empty", c):
            return not v
        if a.op in ("lt", "ieq") and contains(a, lambda t: t is call(p + "len", c) or t is call("len", c)):
            L = call(p + "len", c) if contains(a, lambda t: t is call(p + "len", c)) else call("len", c)
            r = [n for n in range(0, 4) if conc(a, {L: n}) == v]
            if r == [0]:
                return False
            if r == [1, 2, 3]:
                return True
    return None


def success_search(g, X, a, it):
    """which of the responses does the search stop at? {what: complaint}"""
    bad = {}
    st = X.status(mk("someitem", it))
    found = [h for h, _ in op_values(g, "responses") if h.get(a) == 1]
    if any(var(st) not in h for h in found):
        return dict(added="a success is recognised without its status")
    for variant, nums in ((X.Code, STATUSES), (X.Range, range(1, 6))):
        num = fld(st, variant, 0)
        hs = []
        for h in found:
            if h[var(st)] == variant:
                h = {k: x for k, x in h.items() if contains(k, lambda t: t is num)}
                if h not in hs:
                    hs.append(h)
        for n in nums:
            got = [holds(h, {num: n}) for h in hs]
            if None in got:
                return dict(added="a success is recognised from %s" % "; ".join(cond(h) for h in hs)[:300])
            if any(got) != ((200 <= n <= 299) if variant == X.Code else n == 2):
                bad.setdefault("added", "%d is %staken for a success" % (n, "" if any(got) else "not "))
    return bad


def declared_success(g, X, f, listed, codes, hasd, bad):
    """does the state know a declared response that covers a success? (the default does)"""
    if hasd == 1:
        return True
    for a, v in f.items():
        if a.op == "fold" and from_listed(a.a[0], listed) and isinstance(v, bool):
            init, b, body = a.a[2], a.a[1], a.a[3]
            if init is not lbool(False):
                continue
            e = sym("entry#")
            sc = fld(e, 0, 0)
            for alt in alternatives(subst(body, {b: e})):
                sv = alt.facts.get(var(sc))
                if sv is None:
                    bad.setdefault("added", "a success is recognised from %s" % cond(alt.facts))
                    continue
                num = fld(sc, sv, 0)
                accs = {t for t in subterms(alt.ret) if t.op == "acc"}
                for n in (STATUSES if sv == codes[0] else range(1, 6)):
                    h = holds(alt.facts, {num: n})
                    if h is None:
                        bad.setdefault("added", "a success is recognised from %s" % cond(alt.facts))
                        break
                    # taken for a success by itself; one found before stays found
                    yes, kept = [conc(alt.ret, {num: n, **{t: was for t in accs}}) for was in (False, True)]
                    if h and (yes is None or kept is not True):
                        bad.setdefault("added", "a success is recognised as %s" % show(alt.ret)[:100])
                        break
                    if h and yes != ((200 <= n <= 299) if sv == codes[0] else n == 2):
                        bad.setdefault("added", "%d is %staken for a success" % (n, "" if yes else "not "))
            return v
    # a search among the responses already made: the state knows that it found one, or (knowing nothing of
    # it) that it was over without
    same = [k for k in (var(g.get(g.get(sym("op"), g.A("Operation"), "responses"), g.A("Responses"), "default")), ws_of(g)) if k in f]
    for a, it in g.memo("searches", lambda: searches(g, listed)):
        if f.get(a) != 1 and not any(h.get(a) == 1 and all(h.get(k) == f[k] for k in same) for h, _ in op_values(g, "responses")):
            continue
        for k, why in g.memo(("search", a), lambda: success_search(g, X, a, it)).items():
            bad.setdefault(k, why)
        return f.get(a) == 1
    return None


def ws_of(g):
    ws = [a for o in g.operation() for a in o.facts if a.op == "var" and a.a[0].op == "call" and a.a[0].a[1] and a.a[0].a[1][-1] is lstr("x-dropshot-websocket")]
    return ws[0]


def searches(g, listed):
    """[(the atom that an element is found, iterator)] of searches over the responses made from the listed ones"""
    out = {}
    for h, _ in op_values(g, "responses"):
        for a, v in h.items():
            if v == 1 and a not in out and a.op == "var" and a.a[0].op == "call" and a.a[0].a[0] == "next" and a.a[0].a[1][0].op == "during":
                it = a.a[0].a[1][0].a[0]
                if it.op == "iter" and it.a[0].op == "seq":
                    ps = it.a[0].a[0]
                    if len(ps) == 1 and ps[0].op == "star" and from_listed(ps[0].a[0], listed):
                        out[a] = it
    return list(out.items())
