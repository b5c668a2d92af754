"""Names: identifiers made from a document's names, and the hygiene of the variables generated code introduces (G14)."""
import re
from specs_gen import *
from specs_gen import P, Param, body_call, interface, unique, builder, all_terms
from interp import T

KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while "
               "async await dyn abstract become box do final macro override priv try typeof unsized virtual yield union".split())
WORD = re.compile(r"[a-z_][A-Za-z0-9_]*$")


# ---------------------------------------------------------------- identifiers
def is_len(t):
    return t.op == "call" and t.a[0] == "len"


def sanitizing(g, rep):
    b = g.free_fn("sanitize")
    w = g.where(b)
    g.opaque()
    outs = g.run(b, [sym("input"), sym("case")])
    need(rep, "G14:sanitize:total", bool(outs), "every name is turned into an identifier", w)
    CASE = g.adt("Case")
    bad = {}
    for o in outs:
        t = o.ret
        if accepted(o.facts, t):
            continue
        ps = list(pieces(t)) if t.op == "cat" else [t]
        texts = [p.a[0] if p.op == "str" else None for p in ps]
        # otherwise: identifier characters throughout, a first one that may start an identifier, and not a keyword because of the underscore at its end
        if not (len(ps) >= 1 and texts[-1] is not None and texts[-1].endswith("_")):
            bad.setdefault("checked", "%s when %s" % (show(t)[:200], cond(o.facts)[:300]))
            continue
        for p, s in zip(ps, texts):
            if s is not None:
                if not re.fullmatch(r"\w*", s):
                    bad.setdefault("chars", "`%s` is put into an identifier" % s)
            elif not cleaned(g, p):
                bad.setdefault("chars", "%s is put into an identifier" % show(p)[:300])
        if texts[0]:
            if texts[0][0].isdigit() or (len(ps) == 1 and texts[0] == "_"):
                bad.setdefault("start", "%s" % show(t)[:200])
        elif not starts(o.facts, ps[0]):
            bad.setdefault("start", "%s when %s" % (show(t)[:200], cond(o.facts)[:300]))
    need(rep, "G14:sanitize:checked", "checked" not in bad, "an identifier is one the parser accepts, or ends in an underscore so that it is no keyword", w, bad.get("checked"))
    need(rep, "G14:sanitize:chars", "chars" not in bad, "every character that may not be part of an identifier is replaced", w, bad.get("chars"))
    need(rep, "G14:sanitize:start", "start" not in bad, "an identifier starts with a character that may start one, or an underscore", w, bad.get("start"))
    # the two cases are told apart
    for v, want in (("Pascal", "to_pascal_case"), ("Snake", "to_snake_case")):
        used = {x.a[0].rsplit("::", 1)[-1] for o in outs if o.facts.get(var(sym("case")), g.vi(CASE, v)) == g.vi(CASE, v) for x in subterms(o.ret) if x.op == "call" and x.a[0].rsplit("::", 1)[-1].startswith("to_") and "case" in x.a[0]}
        need(rep, "G14:sanitize:%s" % v, used <= {want}, "a name is put into the case that is asked for", w, "%s is made by %s" % (v, sorted(used)))


def accepted(f, t):
    """the facts say that syn parsed this text as an identifier"""
    for a, v in f.items():
        if a.op == "var" and a.a[0].op == "call" and a.a[0].a[0].rsplit("::", 1)[-1] in ("parse_str",) and a.a[0].a[1][0] is t and v == 0:
            return True
    return False


def cleaned(g, t):
    """a name put into a case after its characters were filtered"""
    if t.op != "call" or t.a[0].rsplit("::", 1)[-1] not in ("to_snake_case", "to_pascal_case", "to_upper_camel_case"):
        return False
    x = t.a[1][0]
    if x.op == "str":
        return re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", x.a[0]) is not None
    if x.op == "star" and x.a[0].op == "iter" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "chars":
        # character by character: dropped, replaced, or known to be allowed
        for o in alternatives(x.a[2]):
            r = o.ret
            if r.op == "str":
                if not re.fullmatch(r"[\w \-]*", r.a[0]):
                    return False
            elif not any(s is x.a[1] for s in subterms(r)) or not any(v is True and is_xid(a, x.a[1]) for a, v in o.facts.items()) or len(list(pieces(r))) != 1:
                return False
        return True
    if x.op != "call" or x.a[0].rsplit("::", 1)[-1] != "replace" or x.a[1][2] not in (lstr("-"), lstr("_"), lstr(" ")):
        return False
    return excludes(g, x.a[1][1])


def excludes(g, clo):
    """a character test that is true of every character that may not be part of an identifier"""
    c = sym("c")
    try:
        if clo.op != "agg" or clo.a[0][0] != "closure" or clo.a[1:] and any(x for x in clo.a[2:]):
            return clo.op == "fn" and False
        outs = [(o.facts, o.ret) for o in g.run(clo.a[0][1], [clo, c])]
    except (Unsupported, NeedSplit, AttributeError):
        return False
    if not outs:
        return False
    for f, r in outs:
        if any(v is True and is_xid(a, c) for a, v in f.items()):
            continue
        if truth(r, f, c) is not True:
            return False
    return True


def truth(r, f, c):
    """the value of a test of a character that may not be part of an identifier"""
    if r.op == "bool":
        return r.a[0]
    if is_xid(r, c):
        return False
    if r in f:
        return f[r]
    if r.op == "not":
        v = truth(r.a[0], f, c)
        return None if v is None else not v
    if r.op == "phi":
        vs = {truth(v, {**f, **dict(gd)}, c) for gd, v in r.a[0] if not any(v is True and is_xid(a, c) for a, v in gd)}
        return vs.pop() if len(vs) == 1 else None
    return None


def is_xid(a, c, which="is_xid_continue"):
    return a.op == "call" and a.a[0].rsplit("::", 1)[-1] == which and a.a[1][0] is c


def starts(f, t):
    """the facts say that the text's first character may start an identifier (or the text is not empty and follows an underscore)"""
    for a, v in f.items():
        if v is True and a.op == "call" and a.a[0] == "str::starts_with" and a.a[1][0] is t and a.a[1][1].op == "fn" and "is_xid_start" in show(a.a[1][1]):
            return True
        if v is True and a.op == "call" and a.a[0].rsplit("::", 1)[-1] == "is_xid_start":
            x = a.a[1][0]
            if any(s is t for s in subterms(x)) and any(s.op == "call" and s.a[0].rsplit("::", 1)[-1] == "next" or s.op in ("nextof", "first") for s in subterms(x)):
                return True
    return t.op == "call" and t.a[0].rsplit("::", 1)[-1].startswith("to_") and t.a[1][0].op == "str" and t.a[1][0].a[0][:1].isalpha()


def uniqueness(g, rep):
    b = g.free_fn("unique_ident_from")
    w = g.where(b)
    g.opaque()
    name, ids = sym("name"), sym("identities")
    outs = g.run(b, [name, ids])
    bad = None
    for o in outs:
        t = o.ret
        if not any(v is False and taken(a, ids, t) for a, v in o.facts.items()):
            bad = "%s is returned when %s" % (show(t)[:200], cond(o.facts)[:300])
    need(rep, "G14:unique", bool(outs) and bad is None, "an identifier made to be unique is none of those given", w, bad)


def taken(a, ids, t):
    """an atom that holds if t is among ids"""
    if a.op == "call" and a.a[0].rsplit("::", 1)[-1] == "contains" and a.a[1][0] is ids and a.a[1][1] is t:
        return True
    if a.op in ("any", "anyof", "exists"):
        return any(x is t for x in subterms(a)) and any(x is ids for x in subterms(a))
    return False


# ---------------------------------------------------------------- scopes
class Scopes:
    """variables of generated code: where literal names are bound and where parameters' identifiers are used"""

    def __init__(self, g, m, given=()):
        self.g, self.m = g, m
        self.params = g.get(m, g.adt("OperationMethod"), "params")
        self.given = set(given)
        self.captures = {}     # literal name -> place: a parameter is used where the literal is bound
        self.shadowed = {}     # literal name -> place: the literal is used where a parameter hides it
        self.free = {}         # literal variables nothing binds
        self.bound = 0
        self.uses = 0
        self.uniq = set()
        self.name_i = g.fi(g.adt("OperationParameter"), "name")
        self.elems = set()

    # -- leaves
    def learn(self, t):
        for x in subterms(t):
            if x.op == "star" and any(y is self.params for y in subterms(x.a[0])):
                self.elems.add(x.a[1])

    def kind(self, t):
        """what an identifier hole is: ("param",) / ("unique", name) / ("lit", name) / None"""
        if t.op == "ident":
            self.learn(t)
            u = [x for x in subterms(t) if x.op == "call" and x.a[0] == self.g.fn("unique_ident_from")]
            if u:
                n = u[0].a[1][0]
                s = n.a[0] if n.op == "str" else show(n)[:60]
                if u[0] is unique(self.g, s, self.m, self.params):
                    self.uniq.add(s)
                    return ("unique", s)
                return ("lit", s)
            if self.names(t):
                return ("param",)
            return None
        return None

    def names(self, t):
        """does this text name a parameter"""
        if t.op in ("lit", "num"):
            return False
        if t.op == "fld" and t.a[2] == self.name_i and (t.a[0] in self.elems or t.a[0].op not in ("fld", "call") and any(x in self.elems or x is self.params for x in subterms(t.a[0]))):
            return True
        return any(self.names(x) for x in kids(t))

    def expand(self, ns):
        out = []
        for x in ns:
            if x[0] == "h":
                out.extend(self.hole(x[1]))
            elif x[0] == "g":
                out.append(("g", x[1], self.expand(x[2])))
            else:
                out.append(x)
        return out

    def hole(self, t):
        if t.op == "join":
            t = iters.join_as_star(t)
        if t.op == "star":
            if any(x is self.params for x in subterms(t.a[0])):
                self.elems.add(t.a[1])
            body = self.safe(t.a[2])
            return [("rep", body)] if body is not None else [("h", t)]
        if t.op == "phi":
            out = []
            for gd, v in t.a[0]:
                b = self.safe(v)
                if b is None:
                    return [("h", t)]
                out.append(b)
            return [("alt", out)]
        if t.op == "cat":
            return self.expand(tree(t))
        return [("h", t)]

    def safe(self, t):
        return self.expand(tree(t))

    # -- walking
    def place(self, ns, i):
        return plain(ns[max(0, i - 6):i + 6])[:240]

    def block(self, ns, env):
        """statements in a scope; env: literal name -> has a parameter been bound since"""
        env = dict(env)
        i = 0
        prev = None
        while i < len(ns):
            x = ns[i]
            nx = ns[i + 1] if i + 1 < len(ns) else None
            if x[0] == "rep":
                env.update(self.block(x[1], env))
            elif x[0] == "alt":
                merged = {}
                for b in x[1]:
                    for k, v in self.block(b, env).items():
                        merged[k] = merged.get(k, False) or v
                env.update(merged)
            elif x == ("t", "#") and nx is not None and nx[0] == "g" and nx[1] == "[":
                i += 1
            elif x == ("t", "use"):
                while i < len(ns) and ns[i] != ("t", ";"):
                    i += 1
            elif x == ("t", "fn"):
                j = i + 1
                while j < len(ns) and not (ns[j][0] == "g" and ns[j][1] == "("):
                    j += 1
                args = ns[j] if j < len(ns) else None
                j += 1
                while j < len(ns) and not (ns[j][0] == "g" and ns[j][1] == "{") and ns[j] != ("t", ";"):
                    j += 1
                if args is not None and j < len(ns) and ns[j][0] == "g":
                    e = {}
                    self.pattern(self.untyped(args[2]), e, args[2])
                    self.block(ns[j][2], e)
                i = j
            elif x == ("t", "let"):
                j = i + 1
                while j < len(ns) and ns[j] != ("t", "="):
                    if ns[j] == ("t", ";"):
                        break
                    j += 1
                pat = ns[i + 1:j]
                if prev in (("t", "if"), ("t", "while")):
                    k = j + 1
                    while k < len(ns) and not (ns[k][0] == "g" and ns[k][1] == "{"):
                        k += 1
                    self.block(ns[j + 1:k], env)
                    e = dict(env)
                    self.pattern(pat, e, ns[i:j])
                    if k < len(ns):
                        self.block(ns[k][2], e)
                    i = k
                else:
                    k = j + 1
                    while k < len(ns) and ns[k] != ("t", ";"):
                        k += 1
                    self.block(ns[j + 1:k], env)
                    if ("t", ":") in pat and not any(p[0] == "g" and p[1] == "{" for p in pat):
                        pat = pat[:pat.index(("t", ":"))]
                    self.pattern(pat, env, ns[i:k])
                    i = k
            elif x in (("t", "|"), ("t", "||")) and (prev is None or prev in OPENERS):
                j = i + 1
                if x == ("t", "|"):
                    while j < len(ns) and ns[j] != ("t", "|"):
                        j += 1
                    pat = self.untyped(ns[i + 1:j])
                    j += 1
                else:
                    pat = []
                k = j
                while k < len(ns) and ns[k] not in (("t", ","), ("t", ";")):
                    k += 1
                e = dict(env)
                self.pattern(pat, e, ns[i:j])
                self.block(ns[j:k], e)
                i = k - 1
            elif x == ("t", "match"):
                k = i + 1
                while k < len(ns) and not (ns[k][0] == "g" and ns[k][1] == "{"):
                    k += 1
                self.block(ns[i + 1:k], env)
                if k < len(ns):
                    self.arms(ns[k][2], env)
                i = k
            elif x[0] == "g":
                self.block(x[2], env)
            elif x[0] == "h":
                self.leaf(x[1], prev, nx, env, ns, i)
            elif x[0] == "t" and WORD.match(x[1]) and x[1] not in KEYWORDS:
                if prev not in (("t", "."), ("t", "::"), ("t", "fn"), ("t", "'")) and nx not in (("t", "::"), ("t", "!"), ("t", ":")):
                    self.literal(x[1], env, ns, i)
            if i < len(ns):
                prev = ns[i]
            i += 1
        return env

    def arms(self, ns, env):
        i = 0
        while i < len(ns):
            if ns[i][0] == "rep":
                self.arms(ns[i][1], env)
                i += 1
                continue
            if ns[i][0] == "alt":
                for b in ns[i][1]:
                    self.arms(b, env)
                i += 1
                continue
            if ns[i] == ("t", ","):
                i += 1
                continue
            j = i
            while j < len(ns) and ns[j] != ("t", "=>"):
                j += 1
            if j == len(ns):
                self.block(ns[i:], env)
                return
            pat = ns[i:j]
            e = dict(env)
            self.pattern(pat, e, pat)
            k = j + 1
            if k < len(ns) and ns[k][0] == "g" and ns[k][1] == "{":
                k += 1
            else:
                while k < len(ns) and ns[k] != ("t", ","):
                    k += 1
            self.block(ns[j + 1:k], e)
            i = k

    def untyped(self, ns):
        """closure or function arguments without their types"""
        out, skip, depth = [], False, 0
        for x in ns:
            if x == ("t", "<"):
                depth += 1
            elif x == ("t", ">"):
                depth -= 1
            if x == ("t", ":") and depth == 0:
                skip = True
            elif x == ("t", ",") and depth == 0:
                skip = False
            if x[0] == "rep":
                out.append(("rep", self.untyped(x[1])))
                skip = False
            elif x[0] == "alt":
                out.append(("alt", [self.untyped(b) for b in x[1]]))
                skip = False
            elif not skip:
                out.append(x)
        return out

    def pattern(self, pat, env, where):
        """bind a pattern's variables"""
        lits, par = [], []
        def go(ns):
            for i, x in enumerate(ns):
                nx = ns[i + 1] if i + 1 < len(ns) else None
                pv = ns[i - 1] if i else None
                if x[0] == "g":
                    go(x[2])
                elif x[0] == "rep":
                    go(x[1])
                elif x[0] == "alt":
                    for b in x[1]:
                        go(b)
                elif x[0] == "h":
                    k = self.kind(x[1])
                    if k and k[0] == "param":
                        par.append(x[1])
                    elif k and k[0] == "lit":
                        lits.append(k[1])
                elif x[0] == "t" and WORD.match(x[1]) and x[1] not in KEYWORDS and x[1] != "_":
                    if nx == ("t", "::") or pv == ("t", "::") or (nx is not None and nx[0] == "g" and nx[1] in "({") or pv in (("t", "'"),):
                        continue
                    if nx == ("t", ":"):
                        continue
                    lits.append(x[1])
        go(pat)
        if par:
            for k in env:
                env[k] = True
            for n in lits:
                self.captures.setdefault(n, "`%s` is bound together with the parameters in `%s`" % (n, plain(where)[:200]))
        for n in lits:
            self.bound += 1
            env[n] = False

    def leaf(self, t, prev, nx, env, ns, i):
        k = self.kind(t)
        if k is None:
            if not self.mentions(t):
                return
        elif k[0] == "unique":
            return
        elif k[0] == "lit":
            if prev not in (("t", "."),) and nx != ("t", ":"):
                self.literal(k[1], env, ns, i)
            return
        if prev in (("t", "."), ("t", "fn")) or nx == ("t", ":"):
            return
        self.uses += 1
        for n in env:
            self.captures.setdefault(n, "a parameter is used where the generated code has bound `%s`: `%s`" % (n, self.place(ns, i)))

    def mentions(self, t):
        """an uninterpreted text that uses the parameters"""
        if t.op in ("lit", "num"):
            return False
        self.learn(t)
        if t.op == "fld" and t.a[0].op == "fld" and t.a[0].a[0].op == "call":
            return self.mentions_call(t.a[0].a[0])
        if t.op == "call":
            return self.mentions_call(t)
        return self.names(t)

    def mentions_call(self, t):
        if t.a[0].rsplit("::", 1)[-1] in ("method_sig_body", "compile"):
            return True
        return self.names(t)

    def literal(self, n, env, ns, i):
        if env.get(n):
            self.shadowed.setdefault(n, "`%s` is used where a parameter of that name would hide it: `%s`" % (n, self.place(ns, i)))
        elif n not in env and n not in self.given and n not in PRIMITIVE and not (i + 1 < len(ns) and ns[i + 1][0] == "g" and ns[i + 1][1] == "("):
            self.free.setdefault(n, self.place(ns, i))


PRIMITIVE = set("u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 bool char str".split())
OPENERS = {("t", x) for x in ("(", ",", "=", "move", "async", "return", "=>", ";")}


def kids(t):
    for x in t.a:
        yield from within(x)


def within(x):
    if isinstance(x, Term):
        yield x
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            yield from within(y)


def plain(ns):
    out = []
    for x in ns:
        if x[0] == "t":
            out.append(x[1])
        elif x[0] == "h":
            out.append("<" + show(x[1])[:40] + ">")
        elif x[0] == "rep":
            out.append("#( " + plain(x[1]) + " )*")
        elif x[0] == "alt":
            out.append("[ " + " | ".join(plain(b) for b in x[1]) + " ]")
        else:
            out.append(x[1] + " " + plain(x[2]) + " " + OPEN[x[1]])
    return " ".join(out)


def hygiene(g, rep):
    G = g.adt("Generator")
    H = sym("hook")
    hooks = {h: some(sym(h)) for h in ("pre_hook", "post_hook", "pre_hook_async", "post_hook_async")}
    w = g.sig_where()
    cap, sha, free, n, uses, uniq = {}, {}, {}, 0, 0, set()
    for cfg in (dict(), dict(websocket=True), dict(inner=True, **hooks)):
        m, bs = g.bodies(**cfg)
        seen = set()
        for f, ns, o in bs:
            k = freeze(ns)
            if k in seen:
                continue
            seen.add(k)
            s = Scopes(g, m, given=("client",))
            s.block(s.expand(ns), {})
            cap.update(s.captures), sha.update(s.shadowed), free.update(s.free)
            n += s.bound
            uses += s.uses
            uniq |= s.uniq
    names(rep, "request", w, cap, sha, free, n, uses, uniq)


def names(rep, what, w, cap, sha, free, n, uses, uniq, allowed=("body",)):
    need(rep, "G14:%s:seen" % what, uses > 0 and n + len(uniq) > 0, "the code generated for an operation uses its parameters and has variables of its own", w, "uses %d, variables %d" % (uses, n))
    for x in sorted(uniq):
        rep.ob("G14:%s:own:%s" % (what, x), True, "the generated variable `%s` is given an identifier that is none of the parameters'" % x, w, "as required")
    need(rep, "G14:%s:captures" % what, not cap, "no parameter is used where the generated code has bound a fixed name", w, "; ".join("%s" % v for k, v in sorted(cap.items()))[:700])
    need(rep, "G14:%s:hidden" % what, not sha, "no variable of the generated code is used where a parameter may have hidden it", w, "; ".join(v for k, v in sorted(sha.items()))[:700])
    bad = {k: v for k, v in free.items() if k not in allowed}
    need(rep, "G14:%s:free" % what, not bad, "every fixed name the generated code uses as a variable is bound by it", w, "; ".join("`%s` in `%s`" % x for x in sorted(bad.items()))[:700])
    if "body" in free:
        need(rep, "G14:%s:body" % what, False, "the name `body` is that of the request body only", w, "the generated code uses `body` for the request body, and another parameter of that name is possible: `%s`" % free["body"])


def methods_of(ns):
    """names after fn, directly in a block: ("lit", name) / ("hole", term)"""
    out = []
    for i, x in enumerate(ns):
        if x[0] == "rep":
            out.extend(methods_of(x[1]))
        elif x[0] == "alt":
            for b in x[1]:
                out.extend(methods_of(b))
        elif x == ("t", "fn") and i + 1 < len(ns):
            n = ns[i + 1]
            out.append(("lit", n[1]) if n[0] == "t" else ("hole", n[1]) if n[0] == "h" else ("?", n))
    return out


def interfaces(g, rep):
    for which, what in (("positional_method", "method"), ("builder_struct", "builder")):
        b, m, alts = interface(g, which)
        w = g.where(b)
        cap, sha, free, n, uses, uniq = {}, {}, {}, 0, 0, set()
        clash = set()
        for f, ns in alts:
            s = Scopes(g, m)
            ex = s.expand(ns)
            s.block(ex, {})
            cap.update(s.captures), sha.update(s.shadowed), free.update(s.free)
            n += s.bound
            uses += s.uses
            uniq |= s.uniq
            for x in ex:
                if x[0] == "g" and x[1] == "{":
                    ms = methods_of(x[2])
                    if any(k == "hole" and s.kind(v) == ("param",) for k, v in ms):
                        clash |= {v for k, v in ms if k == "lit"}
        names(rep, what, w, cap, sha, free, n, uses, uniq)
        for c in sorted(clash):
            need(rep, "G14:%s:name:%s" % (what, c), False, "no method of the builder has the name of a parameter's setter", w, "a parameter named `%s` makes a second method of that name" % c)


def g14(g, rep):
    sanitizing(g, rep)
    uniqueness(g, rep)
    hygiene(g, rep)
    interfaces(g, rep)


# ---------------------------------------------------------------- G10: pagination
def pagination_found(g, rep):
    """dropshot_pagination_data: what must hold of an operation that gets a stream"""
    b = g.method(g.adt("Generator"), "dropshot_pagination_data")[0]
    w = g.where(b)
    g.opaque()
    params, resps = sym("parameters"), sym("responses")
    g.E.quant = True
    try:
        outs = g.run(b, [sym("gen"), sym("op"), params, resps])
    finally:
        g.E.quant = False
    OP = Param(g)
    OPN = g.A("Operation")
    DP = g.adt("DropshotPagination")
    TD = g.A("TypeDetails")
    ext = g.get(sym("op"), OPN, "extensions")
    bad = {}
    yes = [o for o in outs if o.ret.op == "agg" and o.ret.a[0] == OPT and o.ret.a[1] == 1]
    no = [o for o in outs if o not in yes]
    need(rep, "G10:found:some", bool(yes) and bool(no), "some operations are paginated and others are not", w)
    for o in yes:
        f = o.facts
        if not any(v == 1 and a.op == "var" and lookup(a.a[0], ext, "x-dropshot-pagination") for a, v in f.items()):
            bad.setdefault("extension", cond(f)[:400])
        every = [a for a, v in f.items() if a.op == "each" and v is True and a.a[0].a[0] is params]
        q = lambda e: {var(subst(OP.kind, {P: e})): OP.Query, subst(fld(OP.kind, OP.Query, 0), {P: e}): True}
        r = lambda e: {var(subst(OP.typ, {P: e})): OP.Raw}
        for key, ex in (("optional", q), ("raw", r)):
            if not any(all(merge_facts(dict(alt), ex(a.a[1])) is None for alt in a.a[2]) for a in every):
                bad.setdefault(key, "nothing excludes it when %s" % cond({a: v for a, v in f.items() if a.op == "each"})[:500])
        c = both_there(g, OP, params, f)
        if c:
            bad.setdefault("both", c)
        item = fld(o.ret.a[2][0], 0, g.fi(DP, "item"))
        c = page_type(g, TD, item, resps, f)
        if c:
            bad.setdefault("type", c)
    for key, desc in (("extension", "a stream is made only for an operation marked as paginated"),
                      ("optional", "a stream is made only if every query parameter is optional, as later pages are asked for without them"),
                      ("raw", "a stream is made only if the operation takes no raw body, which could be sent only once"),
                      ("both", "a stream is made only if page_token and limit are optional query parameters"),
                      ("type", "a stream is made only if a single success type has exactly the fields items, a list, and next_page, an optional string; its elements are those of items")):
        need(rep, "G10:found:%s" % key, key not in bad, desc, w, bad.get(key))
    # an operation without a stream lacks something
    lacks = None
    for o in no:
        if o.ret.op != "agg" or o.ret.a[0] != OPT:
            lacks = "the result is %s" % show(o.ret)[:200]
            continue
        if not any(lacking(g, OP, TD, params, resps, ext, a, v) for a, v in o.facts.items()):
            lacks = "there is none when %s" % cond(o.facts)[:700]
    need(rep, "G10:found:otherwise", lacks is None, "every operation that is marked and of the paginated form gets a stream", w, lacks)


def lookup(t, of, key):
    return t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("get", "get_key_value") and t.a[1][0] is of and t.a[1][1] is lstr(key)


def both_there(g, OP, params, f):
    """page_token and limit are among the parameters, as optional query parameters"""
    have = set()
    for a, v in f.items():
        if a.op == "ieq" and v is True and a.a[1] is lint(2) and (a.a[0].op == "fold" and a.a[0].a[0].op == "iter" and a.a[0].a[0].a[0] is params and a.a[0].a[2] is lint(0) or is_len(a.a[0]) and contains(a.a[0], lambda y: y is params)):
            x = a.a[0]
            if is_len(x):
                return "the number of %s is counted" % show(x)[:200]
            e, body = x.a[1], x.a[3]
            c = counts(g, OP, e, body)
            if c:
                return c
            have = {"page_token", "limit"}
    for n in ("page_token", "limit"):
        for a, v in f.items():
            if a.op == "ieq" and v is True and a.a[1] is lstr(n) and a.a[0].op == "fld":
                e = a.a[0].a[0]
                if subst(OP.api_name, {P: e}) is a.a[0] and any(x is params for x in subterms(e)) and f.get(var(subst(OP.kind, {P: e}))) == OP.Query and f.get(subst(fld(OP.kind, OP.Query, 0), {P: e})) is False:
                    have.add(n)
    miss = {"page_token", "limit"} - have
    return "nothing says that %s is there when %s" % (sorted(miss), cond(f)[:400]) if miss else None


def counts(g, OP, e, body):
    """the fold adds one exactly for the two parameters"""
    acc = mk("acc", 0)
    inc = mk("arith", "Add", acc, lint(1))
    kind, name = subst(OP.kind, {P: e}), subst(OP.api_name, {P: e})
    flag = fld(kind, OP.Query, 0)
    for n in ("page_token", "limit", None):
        for k in OP.nk:
            for req in (True, False):
                f = {var(kind): k, mk("ieq", name, lstr("page_token")): n == "page_token", mk("ieq", name, lstr("limit")): n == "limit", flag: req, mk("not", flag): not req}
                r = resolve(body, f)
                want = inc if n and k == OP.Query and not req else acc
                if r is not want:
                    return "a %s parameter named %s counts as %s" % ("required" if req else "optional", n or "otherwise", show(r)[:200])
    return None


def page_type(g, TD, item, resps, f):
    v = lambda n: g.vi(TD, n)
    if item.op != "fld" or item.a[1] != v("Vec"):
        return "the element type is %s" % show(item)[:300]
    D = item.a[0]
    if f.get(var(D)) != v("Vec"):
        return "nothing says that items is a list"
    get = of_type(D)
    m = payload_of(get)
    if m is None or m.op != "call" or m.a[0].rsplit("::", 1)[-1] not in ("get", "index") or m.a[1][1] is not lstr("items"):
        return "the element type is that of %s" % show(get)[:300] if get is not None else "the element type is %s" % show(item)[:300]
    M = m.a[1][0]
    # the struct's properties
    props = [x for x in subterms(M) if x.op == "call" and x.a[0].rsplit("::", 1)[-1] == "properties"]
    if len(props) != 1:
        return "the fields are %s" % show(M)[:300]
    S = props[0].a[1][0]
    if S.op != "fld" or S.a[1] != v("Struct") or f.get(var(S.a[0])) != v("Struct"):
        return "nothing says that the success type is a struct"
    T_ = of_type(S.a[0])
    n = [a for a, x in f.items() if a.op == "ieq" and x is True and a.a[1] is lint(2) and (a.a[0].op == "call" and a.a[0].a[0].rsplit("::", 1)[-1] == "len" and a.a[0].a[1][0] is M or contains(a.a[0], lambda y: y is props[0]))]
    if not n:
        return "nothing says that there are two fields"
    # next_page: an optional string
    ok = False
    for a, x in f.items():
        if a.op == "var" and x == v("String"):
            opt = of_type(a.a[0])
            if opt is not None and opt.op == "fld" and opt.a[1] == v("Option") and f.get(var(opt.a[0])) == v("Option"):
                q = payload_of(of_type(opt.a[0]))
                if q is not None and q.op == "call" and q.a[1][0] is M and q.a[1][1] is lstr("next_page"):
                    ok = True
    if not ok:
        return "nothing says that next_page is an optional string"
    return single(g, T_, resps, f)


def of_type(d):
    """the type id of type_space.get_type(id).details()"""
    if d.op == "call" and d.a[0].rsplit("::", 1)[-1] == "details":
        x = d.a[1][0]
        if x.op == "fld" and x.a[0].op == "call" and x.a[0].a[0].rsplit("::", 1)[-1] == "get_type":
            return x.a[0].a[1][-1]
    return None


def payload_of(t):
    if t is None:
        return None
    return t.a[0] if t.op == "fld" and t.a[1] == 1 and t.a[2] == 0 else t


def single(g, t, resps, f):
    """t is the type of the only successful response that has one"""
    n = payload_of(t)
    if n is not None and n.op == "index" and n.a[1] is lint(0):
        S = n.a[0]
        if f.get(mk("ieq", call("len", S), lint(1))) is not True:
            return "nothing says that there is one success type only"
    elif n is None or n.op != "call" or n.a[0] != "next" or f.get(var(n)) != 1:
        return "the success type is %s" % (show(t)[:300] if t is not None else "unknown")
    else:
        S = n.a[1][0]
        if f.get(var(call("next", mk("upd", "next", 0, S, ())))) != 0:
            return "nothing says that there is one success type only"
    if S.op != "seq" or len(S.a[0]) != 1 or S.a[0][0].op != "star" or S.a[0][0].a[0].op != "iter" or S.a[0][0].a[0].a[0] is not resps:
        return "the success types are %s" % show(S)[:300]
    e, body = S.a[0][0].a[1], S.a[0][0].a[2]
    R = g.adt("OperationResponse")
    ST, K = g.adt("OperationResponseStatus"), g.adt("OperationResponseKind")
    status, typ = g.get(e, R, "status_code"), g.get(e, R, "typ")
    code, rng = fld(status, g.vi(ST, "Code"), 0), fld(status, g.vi(ST, "Range"), 0)
    for o in alternatives(body):
        if o.ret.op != "seq" or len(o.ret.a[0]) > 1:
            return "the success types are %s" % show(S)[:300]
        fs = o.facts
        kept = len(o.ret.a[0]) == 1
        if kept and (o.ret.a[0][0] is not mk("e", fld(typ, g.vi(K, "Type"), 0)) or fs.get(var(typ)) != g.vi(K, "Type")):
            return "%s counts as a success type" % show(o.ret)[:200]
        k = fs.get(var(status))
        if fs.get(var(typ), g.vi(K, "Type")) != g.vi(K, "Type"):
            continue
        # every status these facts allow
        for kind in ("Code", "Range", "Default"):
            if k is not None and k != g.vi(ST, kind):
                continue
            vals = range(100, 600) if kind == "Code" else range(1, 6) if kind == "Range" else (None,)
            x = code if kind == "Code" else rng
            for v in vals:
                if v is not None and not holds({a: b for a, b in fs.items() if any(y is x for y in subterms(a))}, {x: v}):
                    continue
                success = kind == "Code" and 200 <= v <= 299 or kind == "Range" and v == 2
                if kept != success:
                    return "the type of a %s response %s a success type" % (v if v is not None else "default", "counts as" if kept else "is not")
    return None


def lacking(g, OP, TD, params, resps, ext, a, v):
    """a fact that says why an operation is not paginated"""
    if a.op == "var" and v == 0 and lookup(a.a[0], ext, "x-dropshot-pagination"):
        return True
    if a.op == "ieq" and v is False and a.a[1] is lint(2):
        return True
    if a.op == "ieq" and v is False and a.a[1] is lint(1) and is_len(a.a[0]) and any(x is resps for x in subterms(a)):
        return True
    if a.op == "each" and a.a[0].a[0] is params:
        # no element is the optional query parameter page_token, or limit
        e = a.a[1]
        for n in ("page_token", "limit"):
            f = {var(subst(OP.kind, {P: e})): OP.Query, subst(fld(OP.kind, OP.Query, 0), {P: e}): False, mk("ieq", subst(OP.api_name, {P: e}), lstr(n)): True}
            if all(merge_facts(dict(alt), f) is None for alt in a.a[2]):
                return True
    if any(x is params for x in subterms(a)):
        es = {x for x in subterms(a) if x.op == "someitem"} | {fld(x, 1, 0) for x in subterms(a) if x.op == "call" and x.a[0] == "next"}
        for e in es:
            if a is var(subst(OP.typ, {P: e})) and v == OP.Raw:
                return True
            if a is subst(fld(OP.kind, OP.Query, 0), {P: e}) and v is True:
                return True
    if a.op == "var" and a.a[0].op == "call":
        n = a.a[0].a[0].rsplit("::", 1)[-1]
        about = any(x is resps for x in subterms(a))
        if about and n == "next" and (v == 0) == (a.a[0].a[1][0].op == "seq"):
            return True
        if about and n == "get_type" and v == 1:
            return True
        if about and n == "get" and v == 0:
            return True
        if about and n == "details":
            t = of_type(a.a[0])
            q = payload_of(t)
            want = None
            if t is not None and t.op == "fld" and t.a[1] == g.vi(TD, "Option") and t.a[0].op == "call" and t.a[0].a[0].rsplit("::", 1)[-1] == "details":
                want = "String"
            elif q is not None and q.op == "call" and q.a[0].rsplit("::", 1)[-1] == "get":
                want = {"next_page": "Option", "items": "Vec"}.get(q.a[1][1].a[0] if q.a[1][1].op == "str" else None)
            elif q is not None and (q.op == "call" and q.a[0] == "next" or q.op == "index"):
                want = "Struct"
            if want and v != g.vi(TD, want):
                return True
    return False


METHOD_STREAM = """$$rest # [ doc = $doc ] pub fn {0} < $$bounds > ( & 'a self , $$args ) -> impl futures :: Stream < Item = Result < {1} , Error < {2} > , >> + Unpin + '_ {
  $$uses self . {3} ( $$first ) . map_ok ( move | $page | {
    let $got = $page . into_inner ( ) ;
    let $one = futures :: stream :: iter ( $got . items ) . map ( Ok ) ;
    let $more = futures :: stream :: try_unfold ( $got . next_page , move | $state | async move {
      if $state . is_none ( ) { Ok ( None ) } else {
        self . {3} ( $$step ) . map_ok ( | $next | { let $then = $next . into_inner ( ) ; Some ( ( futures :: stream :: iter ( $then . items ) . map ( Ok ) , $then . next_page ) ) } ) . await
      } } ) . try_flatten ( ) ;
    $one . chain ( $more ) } ) . try_flatten_stream ( ) . boxed ( ) }"""

BUILDER_STREAM = """# [ doc = $doc ] pub fn stream ( self ) -> impl futures :: Stream < Item = Result < {0} , Error < {1} > , >> + Unpin + 'a {
  $$uses let $next = Self { $$step .. self . clone ( ) } ;
  self . send ( ) . map_ok ( move | $page | {
    let $got = $page . into_inner ( ) ;
    let $one = futures :: stream :: iter ( $got . items ) . map ( Ok ) ;
    let $more = futures :: stream :: try_unfold ( ( $got . next_page , $next ) , | ( $token , $tmpl ) | async {
      if $token . is_none ( ) { Ok ( None ) } else {
        Self { page_token : Ok ( $token ) , .. $tmpl . clone ( ) } . send ( ) . map_ok ( | $page2 | { let $then = $page2 . into_inner ( ) ; Some ( ( futures :: stream :: iter ( $then . items ) . map ( Ok ) , ( $then . next_page , $tmpl ) ) ) } ) . await
      } } ) . try_flatten ( ) ;
    $one . chain ( $more ) } ) . try_flatten_stream ( ) . boxed ( ) }"""

USES = {"futures :: %s" % t for t in ("StreamExt", "TryFutureExt", "TryStreamExt")}


def uses_ok(ns):
    got = set()
    for s in stmts(ns):
        t = render(s)
        if not t.startswith("use "):
            return "`%s`" % t[:200]
        got.add(t[4:].replace(":: futures", "futures", 1) if t[4:].startswith(":: ") else t[4:])
    return None if got == USES else "it uses %s" % sorted(got)


def streams(g, rep):
    OM = g.adt("OperationMethod")
    A = g.adt("MethodSigBody")
    OP = Param(g)
    G = g.adt("Generator")
    pt, lim = mk("ieq", OP.api_name, lstr("page_token")), mk("ieq", OP.api_name, lstr("limit"))
    ptn = mk("ieq", OP.name, lstr("page_token"))

    def ask3(ask):
        """which of the named parameters this is, by the name in the document; None if that cannot be"""
        p = ask(pt)
        l = not p and ask(lim)
        if ask(ptn) != p:
            return "impossible"
        return "page_token" if p else "limit" if l else ""

    for which, what in (("positional_method", "method"), ("builder_struct", "builder")):
        b, m, alts = interface(g, which)
        w = g.where(b)
        params = g.get(m, OM, "params")
        pag = g.get(m, OM, "dropshot_paginated")
        seen = set()
        for f, ns in alts:
            calls = {t for t in all_terms(ns) if t.op == "call" and t.a[0] == g.method(G, "method_sig_body")[0]}
            if len(calls) != 1:
                need(rep, "G10:%s:body" % what, False, "the stream rests on the operation's own body", w, "%d bodies" % len(calls))
                continue
            part = lambda n: g.get(fld(next(iter(calls)), 0, 0), A, n)
            has = "Stream" in plain_words(ns)
            v = f.get(var(pag))
            if not need(rep, "G10:%s:when" % what, v is not None and has == (v == 1), "a stream method is generated exactly if the operation is paginated", w, "a stream %s when %s" % ("is generated" if has else "is not generated", cond(f)[:300])):
                continue
            if v == 0:
                continue
            ity = [t for t in all_terms(ns) if t.op == "call" and t.a[0] == "typify::Type::ident" and any(x is g.get(fld(pag, 1, 0), g.adt("DropshotPagination"), "item") for x in subterms(t))]
            opid = g.get(m, OM, "operation_id")
            if not need(rep, "G10:%s:item" % what, len(set(ity)) == 1, "the stream's elements have the type found for them", w, "%d types" % len(set(ity))):
                continue
            if what == "method":
                x = match(fill(METHOD_STREAM, mk("ident", cat(opid, lstr("_stream"))), ity[0], part("error"), mk("ident", opid)), ns, None, f)
            else:
                body = [n for n in ns if n[0] == "g" and n[1] == "{"][-1][2]
                i = max(i for i, n in enumerate(body) if n == ("t", "fn") and i + 1 < len(body) and body[i + 1] == ("t", "stream"))
                x = match(fill(BUILDER_STREAM, ity[0], part("error")), body[i - 5:] if i >= 5 and body[i - 5] == ("t", "#") else body[max(0, i - 3):], None, f)
            if not need(rep, "G10:%s:shape" % what, x is not None, "the stream yields the items of the first page, then asks for the next page with the token of the one before until there is none, and yields theirs", w, "it is `%s`" % plain(Scopes(g, m).expand(ns))[-1800:]):
                continue
            k = freeze([x.get(n) for n in ("args", "first", "step", "uses", "state")])
            if k in seen:
                continue
            seen.add(k)
            c = uses_ok(x["uses"])
            need(rep, "G10:%s:uses" % what, c is None, "the extension traits the stream needs are in scope", w, c)
            step = hole_args(x["step"], params)
            if not need(rep, "G10:%s:lists" % what, step is not None and len(step) == 1, "what is asked for on later pages is decided parameter by parameter", w, render(x["step"])[:300]):
                continue
            if what == "method":
                args, first = hole_args(x["args"], params), hole_args(x["first"], params)
                if not need(rep, "G10:method:lists", args is not None and first is not None and len(args) == 1 and len(first) == 1, "the stream method's arguments are the operation's parameters", w, "%s / %s" % (render(x["args"])[:200], render(x["first"])[:200])):
                    continue
                state = x["state"]

                def sargs(ask):
                    n = ask3(ask)
                    if n == "impossible":
                        return None
                    return ("",) if n == "page_token" else argument_spec(g, OP, ask)

                def sfirst(ask):
                    n = ask3(ask)
                    return None if n == "impossible" else ("None ,",) if n == "page_token" else ("{0} ,", OP.ident)

                def sstep(ask):
                    n = ask3(ask)
                    if n == "impossible":
                        return None
                    if n == "page_token":
                        return [("{0} . as_deref ( ) ,", state[1])] if state[0] == "h" else [("%s . as_deref ( ) ," % state[1],)]
                    if n == "" and OP.kindis(ask) == OP.Query:
                        return ("None ,",)
                    return ("{0} ,", OP.ident)
                g.emission(rep, "G10:method:args", w, "the stream method takes the operation's arguments but for the page token", args, sargs)
                g.emission(rep, "G10:method:first", w, "the first page is asked for with the arguments given and no page token", first, sfirst)
                g.emission(rep, "G10:method:step", w, "later pages are asked for with the page token, the limit and everything that is not a query parameter, and no other query parameter", step, sstep)
            else:
                def bstep(ask):
                    n = ask3(ask)
                    if n == "impossible":
                        return None
                    if OP.kindis(ask) != OP.Query or n == "limit":
                        return ("",)
                    if n == "page_token":
                        return [("{0} : Ok ( None ) ,", OP.ident), ("",)]
                    return ("{0} : Ok ( None ) ,", OP.ident)
                g.emission(rep, "G10:builder:step", w, "later pages are asked for with the limit and everything that is not a query parameter, and no other query parameter but the page token", step, bstep)


def plain_words(ns):
    """the words of the text, not of its holes"""
    out = set()
    for x in ns:
        if x[0] == "t":
            out.add(x[1])
        elif x[0] == "g":
            out |= plain_words(x[2])
    return out


def g10(g, rep):
    pagination_found(g, rep)
    streams(g, rep)
