"""Specifications of the generator properties, third part: argument order, refusals, path templates."""
from terms import *
from check_base import *
from interp import St
import iters
from specs_gen import *
from specs_gen2 import *


# ---------------------------------------------------------------- G15: the order of arguments
KINDS = ("Path", "Query", "Header", "Body")


class Sorted:
    """what the order of an operation's parameters depends on"""

    def __init__(self, g):
        self.g = g
        self.OP = g.adt("OperationParameter")
        self.K = g.adt("OperationParameterKind")

    def param(self, nm, kind):
        k = self.g.vi(self.K, kind)
        n = len(self.g.E.adts[self.K]["variants"][k]["fields"])
        return self.g.struct("OperationParameter", nm, kind=agg(self.K, k, [sym(nm, "kind", str(i)) for i in range(n)]))

    def name(self, nm):
        return sym(nm, "api_name")

    @staticmethod
    def compare(g, how, fn, a, b):
        """[(facts, ordering term)]"""
        E = g.E
        if how.endswith("_by"):
            return [(s.facts, E.full(s, v)) for s, v in E.call_value(St(), fn, [a, b], None)]
        if how.endswith("_key"):
            out = []
            for s, x in E.call_value(St(), fn, [a], None):
                for s2, y in E.call_value(s, fn, [b], None):
                    out += [(s3.facts, v) for s3, v in lexi(g, s2, E.full(s2, x), E.full(s2, y))]
            return out
        raise Unsupported("parameters sorted with %s" % how)


def lexi(g, s, x, y):
    """the ordering of two keys"""
    if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0]:
        if x.a[1] != y.a[1]:
            return [(s, agg(ORD, 0 if x.a[1] < y.a[1] else 2, ()))]
        for p, q in zip(x.a[2], y.a[2]):
            if p is q:
                continue
            r = lexi(g, s, p, q)
            if len(r) == 1 and r[0][1].op == "agg" and r[0][1].a[1] == 1:
                continue
            # a later component matters only when this one is equal: names and places are distinct
            return r
        return [(s, agg(ORD, 1, ()))]
    if x.op == "int" and y.op == "int":
        return [(s, agg(ORD, (x.a[0] > y.a[0]) - (x.a[0] < y.a[0]) + 1, ()))]
    return [(s, call("core::cmp::Ord::cmp", x, y))]


def peel(t):
    """a value under references, options and conversions that keep its order"""
    while True:
        if t.op == "agg" and t.a[0] == OPT and t.a[1] == 1:
            t = t.a[2][0]
        elif t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("as_str", "clone", "to_string", "as_ref", "deref", "to_owned", "borrow") and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "call" and t.a[0] in ("cmp", "core::cmp::Ord::cmp") and len(t.a[1]) == 2:
            return t
        else:
            return t


def is_cmp(t, p, q):
    return t.op == "call" and t.a[0] in ("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp") and peel(t.a[1][0]) is p and peel(t.a[1][1]) is q


def place_of(t, name, facts, tpl):
    """t counts the template's parameters before the one called name"""
    t = peel(t)
    if t.op == "fld" and t.a[0].op == "call" and t.a[0].a[0].rsplit("::", 1)[-1] == "position":
        return contains(t.a[0], lambda x: x is tpl)
    if t.op != "during" or t.a[0].op != "fold" or t.a[0].a[0].op != "iter" or t.a[0].a[2] is not lint(0):
        return False
    mark = t.a[1:]
    src = t.a[0].a[0]
    step = t.a[0].a[3]
    steps = [step] if step.op != "phi" else [v for _, v in step.a[0]]
    one = mk("arith", "Add", mk("acc", 0), lint(1))
    if one not in steps or any(x is not one and x is not mk("acc", 0) for x in steps):
        return False
    if not (contains(src, lambda x: x is tpl)) or contains(src, lambda x: x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("rev", "reverse", "sort", "map")):
        return False
    item = mk("someitem", src, *mark)
    for a, v in facts.items():
        if a.op == "eq" and v is True:
            p, q = a.a
            for l, r in ((p, q), (q, p)):
                if peel(l) is name and contains(r, lambda x: x is item):
                    return True
    return False


def g15(g, rep):
    w = g.op_where()
    X = Sorted(g)
    tpl = fld(fld(call(g.fn("parse"), sym("path")), 0, 0), 0, 0)
    sorts = {}
    for f, s, how in op_params(g):
        sorts[how] = 1
    need(rep, "G15:sorted", None not in sorts and bool(sorts), "the parameters of every operation, its body included, are put in order", w, "not sorted")
    for how in [h for h in sorts if h is not None]:
        m = {}
        bads = {}
        for i in KINDS:
            for j in KINDS:
                if i == j == "Body":
                    continue    # an operation has one body
                outs = X.compare(g, how[0], how[1], X.param("a", i), X.param("b", j))
                vals = set()
                for f, t in outs:
                    if t.op == "agg":
                        vals.add(t.a[1] - 1)
                    elif i == j == "Path" and t.op == "call" and t.a[0].endswith("::cmp") and place_of(t.a[1][0], X.name("a"), f, tpl) and place_of(t.a[1][1], X.name("b"), f, tpl):
                        vals.add("key")
                    elif i == j != "Path" and is_cmp(t, X.name("a"), X.name("b")):
                        vals.add("key")
                    else:
                        vals.add(show(t)[:300])
                m[i, j] = vals
        names = ("comes before", "is equal to", "comes after")
        for n, i in enumerate(KINDS):
            if i != "Body" and m[i, i] != {"key"}:
                bads.setdefault("within:" + i, "two %s parameters are compared by %s" % (i.lower(), sorted(map(str, m[i, i])) or "nothing"))
            for j in KINDS[n + 1:]:
                if m[i, j] != {-1}:
                    bads.setdefault("between:%s:%s" % (i, j), "a %s parameter %s a %s parameter" % (i.lower(), names[min(m[i, j]) + 1] if m[i, j] and all(isinstance(x, int) for x in m[i, j]) else "is compared by %s with" % sorted(map(str, m[i, j])), j.lower()))
                if m[j, i] != {1}:
                    bads.setdefault("between:%s:%s" % (i, j), "a %s parameter %s a %s parameter" % (j.lower(), names[min(m[j, i]) + 1] if m[j, i] and all(isinstance(x, int) for x in m[j, i]) else "is compared by %s with" % sorted(map(str, m[j, i])), i.lower()))
        for n, i in enumerate(KINDS):
            if i != "Body":
                k = "within:" + i
                need(rep, "G15:%s" % k, k not in bads, "%s parameters are ordered by %s" % (i.lower(), "their place in the template" if i == "Path" else "name"), w, bads.get(k))
            for j in KINDS[n + 1:]:
                k = "between:%s:%s" % (i, j)
                need(rep, "G15:%s" % k, k not in bads, "every %s parameter comes before every %s parameter, whichever of the two is compared with the other" % (i.lower(), "body" if j == "Body" else j.lower()), w, bads.get(k))


# ---------------------------------------------------------------- G12: what is not supported is refused
STYLES = dict(Path=("PathStyle", "Simple"), Query=("QueryStyle", "Form"), Header=None)     # a header has only one style


def has_style(g, f, style, en, only):
    try:
        return f.get(var(style)) == g.vi(g.A(en), only)
    except Missing:
        return False    # a type nothing looks at


def listed(g, it):
    """what one listed parameter, or reference to one, contributes: [term]"""
    s = it.a[0] if it.op == "iter" else it
    if s.op == "call" and s.a[0].rsplit("::", 1)[-1] in ("values", "into_values") and s.a[1][0].op == "mapof":
        s = s.a[1][0].a[1]
    own = g.get(sym("op"), g.A("Operation"), "parameters")
    out = []
    for x in s.a[0] if s.op == "seq" else ():
        for c in (sym("path_params"), own):
            b = for_each(x, c, sym("ref"))
            if b is not None:
                out.append(b)
    return out


def g12(g, rep):
    w = g.op_where()
    D = Doc(g)
    E = sym("declared")
    bads = {}
    seen = set()
    # parameters
    for f, s, how in op_params(g):
        for st in [x for x in (s.a[0] if s.op == "seq" else ()) if x.op == "star"]:
            for t in listed(g, st.a[0]):
                for a in alternatives(t):
                    if not iters_items(a.ret):
                        bads.setdefault("ignored", "when %s a listed parameter is left out and generation goes on" % cond(a.facts)[:300])
            for o in alternatives(subst(st.a[2], {st.a[1]: E})):
                k = o.facts.get(var(E))
                kinds = [n for n, i in D.v.items() if i == k]
                if not iters_items(o.ret):
                    bads.setdefault("ignored", "when %s it is left out and generation goes on" % cond(o.facts)[:300])
                    continue
                if not kinds:
                    bads.setdefault("kind", "a parameter is accepted without looking at its kind")
                    continue
                kind = kinds[0]
                if kind == "Cookie":
                    bads.setdefault("Cookie", "accepted when %s" % cond(o.facts)[:300])
                    continue
                seen.add(kind)
                style = g.get(E, D.PA, "style", kind)
                if STYLES[kind] and not has_style(g, o.facts, style, *STYLES[kind]):
                    bads.setdefault("style:" + kind, "accepted when %s" % cond({a: v for a, v in o.facts.items() if a is var(style)})[:300])
                pd = D.data(g, E, kind)
                fmt = g.get(pd, D.PD, "format")
                if o.facts.get(var(fmt)) != g.vi(D.SC, "Schema"):
                    bads.setdefault("content:" + kind, "accepted when %s" % cond({a: v for a, v in o.facts.items() if a is var(fmt)})[:300])
                if kind == "Path" and o.facts.get(g.get(pd, D.PD, "required")) is not True:
                    bads.setdefault("optional", "accepted when %s" % cond(o.facts)[:300])
    one = lambda key, desc: need(rep, "G12:" + key, key not in bads and (":" not in key or key.split(":")[1] in seen), desc, w, bads.get(key, "no such parameter is accepted at all"))
    one("ignored", "no declared parameter is left out while generation goes on")
    one("kind", "what happens to a parameter depends on its kind")
    one("Cookie", "a cookie parameter makes generation fail")
    one("optional", "a path parameter that is not required makes generation fail")
    for k in STYLES:
        if STYLES[k]:
            one("style:" + k, "a %s parameter in any style but %s makes generation fail" % (k.lower(), STYLES[k][1].lower()))
        one("content:" + k, "a %s parameter described by a content map makes generation fail" % k.lower())
    # the rest of an operation
    op, comps, gen = sym("op"), sym("components"), sym("gen")
    OM = g.adt("OperationMethod")
    O, RS, RP, MT = g.A("Operation"), g.A("Responses"), g.A("Response"), g.A("MediaType")
    ic = set(g.trait_fn("ReferenceOrExt", "item"))
    gbp = g.method(g.adt("Generator"), "get_body_param")[0]
    fs = impl_item(g, "FromStr", g.adt("HttpMethod"), "from_str")
    bad = {}
    n = nws = 0
    for o in g.operation():
        if o.ret.op != "agg" or o.ret.a[1] != 0:
            continue
        n += 1
        r = fld(o.ret, 0, 0)
        f = o.facts
        if f.get(var(call(g.fn("parse"), sym("path")))) != 0:
            bad.setdefault("path", "generation goes on when %s" % cond(f)[:300])
        if f.get(var(call(fs, sym("method")))) != 0:
            bad.setdefault("verb", "generation goes on when %s" % cond(f)[:300])
        bc = [a for a in f if a.op == "var" and a.a[0].op == "call" and a.a[0].a[0] == gbp]
        if not bc or f[bc[0]] != 0:
            bad.setdefault("body", "generation goes on when %s" % cond({a: v for a, v in f.items() if a in bc})[:300])
        # references followed: nothing unresolved may be used
        for a in set(subterms(r)) | {x for y in f for x in subterms(y)}:
            if a.op == "fld" and a.a[1:] == (1, 0) and a.a[0].op == "call" and a.a[0].a[0] in ic:
                bad.setdefault("reference", "an operation is made from the failure to follow a reference")
        # websockets and pagination
        ws = [v for a, v in f.items() if a.op == "var" and a.a[0].op == "call" and len(a.a[0].a[1]) > 1 and a.a[0].a[1][1] is lstr("x-dropshot-websocket")]
        pag = g.get(r, OM, "dropshot_paginated")
        wsv = g.get(r, OM, "dropshot_websocket")
        for x in alternatives(wsv):
            ff = merge_facts(x.facts, f)
            if ff is None:
                continue
            if x.ret is lbool(True) or (x.ret.op != "bool" and ff.get(x.ret) is not False):
                nws += 1
                pv = [a.ret for a in alternatives(pag) if merge_facts(a.facts, ff) is not None]
                if any(not (p is NONE or ff.get(var(p)) == 0) for p in pv):
                    bad.setdefault("conflict", "an operation may be both a websocket and paginated: %s" % show(pv[0])[:200])
    if not nws:
        bad.setdefault("conflict", "no operation is ever a websocket")
    for key, desc in (("path", "a path that cannot be parsed makes generation fail"), ("verb", "an unknown verb makes generation fail"), ("body", "a body that is not supported makes generation fail"),
                      ("reference", "a reference that cannot be followed is not used"), ("conflict", "an operation marked both as a websocket and as paginated makes generation fail")):
        need(rep, "G12:" + key, key not in bad and n > 0, desc, w, bad.get(key, "no operation is ever processed"))
    separate(g, rep)


def separate(g, rep):
    """positional methods cannot be separated by tag"""
    G = g.adt("Generator")
    b = g.method(G, "generate_tokens")[0]
    w = g.where(b)
    I, T = g.adt("InterfaceStyle"), g.adt("TagStyle")
    got = {}
    for i in ("Positional", "Builder"):
        for t in ("Merged", "Separate"):
            g.opaque(free=("validate_openapi", "sanitize"), gen=("process_operation", "positional_method", "builder_struct", "builder_tags", "builder_impl"))
            outs = g.run(b, [g.struct("Generator", "g", settings=g.settings(interface=agg(I, g.vi(I, i), ()), tag=agg(T, g.vi(T, t), ()), inner_type=NONE)), sym("spec")])
            got[i, t] = any(o.ret.op != "agg" or o.ret.a[1] == 0 for o in outs)
    need(rep, "G12:separate", not got["Positional", "Separate"], "asking for positional methods separated by tag does not produce a client", w, "a client is generated")
    need(rep, "G12:styles", all(v for k, v in got.items() if k != ("Positional", "Separate")), "every other combination of styles does", w, "nothing is generated for %s" % [k for k, v in got.items() if not v])


# ---------------------------------------------------------------- G03: path templates
C = sym("the next character")
CLASSES = (("/", "/"), ("{", "{"), ("}", "}"), ("any other character", None))


def const_term(t):
    return t.op in ("bool", "int", "char", "str") or (t.op == "agg" and not t.a[2])


class Scanner:
    """the character loop of a function over text, as an automaton: control values x text registers"""

    def __init__(self, g, b, arg):
        self.g = g
        E = g.E
        E.loop_steps.clear()
        n = len(E.panics)
        self.outs = g.run(b, [arg])
        self.panics = [p for p in E.panics[n:] if not p["benign"]]
        loops = [L for L in E.loop_steps if L["src"] is not None and L["src"] is mk("iter", call("chars", arg))]
        if len(loops) != 1:
            raise Unsupported("%s does not go through the characters of its argument once, one at a time (%d such loops)" % (b, len(loops)))
        self.L = L = loops[0]
        self.lvs = [k for k in L["inits"] if k is not L["it"]]
        order = list(L["inits"])
        self.canon = {k: sym("at the loop", str(order.index(k))) for k in self.lvs}
        self.seqs, self.texts, self.ctrl = [], [], []
        for k in self.lvs:
            i = L["inits"][k]
            if i.op == "seq":
                self.seqs.append(self.canon[k])
            elif i is lstr("") or i.op == "cat":
                self.texts.append(self.canon[k])
            else:
                self.ctrl.append(self.canon[k])
        self.init = {self.canon[k]: L["inits"][k] for k in self.lvs}
        self.steps = []
        for gd, o in L["nexts"]:
            f = {self.rename(a): v for a, v in gd if not self.more(a)}
            self.steps.append((f, {self.canon[k]: self.rename(o[k]) for k in self.lvs}))
        # what the function returns, from inside the loop and after it
        self.inside, self.after = [], []
        for o in self.outs:
            during = any(x.op == "during" for a in o.facts for x in subterms(a))
            f = {self.rename(a): v for a, v in o.facts.items() if not self.more(a)}
            (self.inside if during else self.after).append((f, self.rename(o.ret)))

    def more(self, a):
        """the fact that there is another character"""
        return a.op == "var" and any(x is self.L["it"] or (x.op in ("during", "exhausted")) for x in subterms(a)) and any(x.op == "call" and str(x.a[0]).endswith("next") or x.op == "next" for x in subterms(a)) and \
            not any(x.op == "loopvar" for x in subterms(a))

    def rename(self, t):
        m = dict(self.canon)
        m[self.L["item"]] = C
        order = list(self.L["inits"])
        for x in subterms(t):
            if x.op == "loopvar" and x.a[0] == self.L["lid"] and order[x.a[2]] in self.canon:
                m[x] = self.canon[order[x.a[2]]]
            elif x.op == "someitem" and x.a[0] is self.L["src"]:
                m[x] = C
        t = subst(t, m)
        m = {x: x.a[0] for x in subterms(t) if x.op == "during" and x.a[0] in self.canon.values()}
        t = subst(t, m)
        return subst(t, {x: C for x in subterms(t) if x.op == "disp" and x.a[1] is C})

    # a state is what each control variable is, up to the text inside it
    def value(self, s, v):
        """the control part of a new value in state s"""
        out = []
        for c in self.ctrl:
            x = v[c]
            if x is c:
                out.append(s[self.ctrl.index(c)])
            elif x.op == "agg":
                out.append((x.a[0], x.a[1]))
            elif x.op == "with" and x.a[0] is c and x.a[1] == s[self.ctrl.index(c)][1]:
                out.append(s[self.ctrl.index(c)])
            elif const_term(x):
                out.append(x)
            else:
                raise Unsupported("the loop carries %s" % show(x)[:200])
        return tuple(out)

    def regs(self, s):
        r = list(self.texts)
        for c, v in zip(self.ctrl, s):
            if isinstance(v, tuple) and v[0] in self.g.E.adts:
                for i in range(len(self.g.E.adts[v[0]]["variants"][v[1]]["fields"])):
                    r.append(fld(c, v[1], i))
        return r

    def agrees(self, s, f):
        """whether facts f can hold in state s; the facts about other things"""
        rest = {}
        for a, v in f.items():
            x = a.a[0] if a.op in ("var", "ieq") else a
            if x in self.ctrl:
                y = s[self.ctrl.index(x)]
                if a.op == "var":
                    if not isinstance(y, tuple):
                        return None
                    if y[1] != v:
                        return None
                elif a.op == "ieq":
                    if (y is a.a[1]) != v:
                        return None
                elif y is not lbool(v):
                    return None
            elif any(z in self.ctrl for z in subterms(x)) and x not in self.regs(s) and not any(z in self.regs(s) for z in subterms(x)):
                return None
            else:
                rest[a] = v
        return rest

    def new_reg(self, s2, v, r):
        """the value of register r (of the new state) in terms of the old ones"""
        if r in v:
            return v[r]
        c = r.a[0]
        x = v[c]
        return r if x is c else fld(x, r.a[1], r.a[2])


def text(t, f, ch):
    """text as a list of parts, what is known about it used"""
    out = []
    for p in pieces(t):
        if p.op == "char":
            p = lstr(p.a[0])
        if p is C and ch is not None:
            p = lstr(ch)
        if f.get(mk("ieq", p, lstr(""))) is True or p is lstr(""):
            continue
        if p.op == "str" and out and out[-1].op == "str":
            out[-1] = lstr(out[-1].a[0] + p.a[0])
        else:
            out.append(p)
    return out


def ends_in_slash(a, regs):
    """a test of the last character of what is being collected"""
    if a.op == "call" and str(a.a[0]).endswith("::ends_with"):
        return a.a[1][0] in regs and a.a[1][1] in (lchar("/"), lstr("/"))
    if a.op == "ieq" and a.a[1] is lchar("/") and a.a[0].op == "fld" and a.a[0].a[1:] == (1, 0):
        l = a.a[0].a[0]
        if l.op == "fold":
            return l.a[0].op == "iter" and l.a[0].a[0] in [call("chars", r) for r in regs] and l.a[2] is NONE and l.a[3] is some(l.a[1])
        return l.op == "call" and str(l.a[0]).rsplit("::", 1)[-1] in ("last", "next_back") and any(l.a[1][0] is x for r in regs for x in (r, call("chars", r)))
    return False


def g03(g, rep):
    g.opaque()
    b = g.free_fn("parse")
    w = g.where(b)
    T = Scanner(g, b, sym("t"))
    CO, PT = g.adt("Component"), g.adt("PathTemplate")
    con, par = g.vi(CO, "Constant"), g.vi(CO, "Parameter")
    comps_i = g.fi(PT, "components")
    if len(T.seqs) != 1:
        raise Unsupported("parse collects %d lists" % len(T.seqs))
    Q = T.seqs[0]

    def pushed(v, base=None):
        """text of the components added by making the list v"""
        base = base or Q
        if v is base:
            return []
        if v.op == "seq" and v.a[0] and v.a[0][0] is mk("spread", base):
            out = []
            for e in v.a[0][1:]:
                if e.op != "e" or e.a[0].op != "agg" or e.a[0].a[0] != CO:
                    return None
                x = fld(e.a[0], e.a[0].a[1], 0)
                out += [x] if e.a[0].a[1] == con else [lstr("{"), x, lstr("}")]
            return out
        return None

    def can(f, ch):
        """whether a character of the class fits the facts"""
        for a, v in f.items():
            if a.op == "ieq" and a.a[0] is C and a.a[1].op in ("char", "str"):
                if ch is None and a.a[1].a[0] in "/{}":
                    if v:
                        return False
                elif ch is not None and (a.a[1].a[0] == ch) != v:
                    return False
        return True

    # ---- the states that can be reached, and the steps between them
    s0 = tuple((x.a[0], x.a[1]) if x.op == "agg" else x for x in (T.init[c] for c in T.ctrl))
    todo, states, edges = [s0], [s0], []
    while todo:
        s = todo.pop()
        for f, v in T.steps:
            rest = T.agrees(s, f)
            if rest is None:
                continue
            s2 = T.value(s, v)
            for cn, ch in CLASSES:
                if can(rest, ch):
                    edges.append((s, cn, ch, rest, v, s2))
            if s2 not in states:
                states.append(s2)
                todo.append(s2)
    # ---- what of the text read so far is not in the list yet, in each state
    import itertools
    choice = {s: [()] + [(r,) for r in T.regs(s)] + [(lstr("{"), r) for r in T.regs(s)] for s in states}

    def lost(pend):
        bad = []
        i = [T.init[r] if r in T.init else fld(T.init[r.a[0]], r.a[1], r.a[2]) if isinstance(r, Term) and r.op == "fld" else r for r in pend[s0]]
        if text(cat(*i) if i else lstr(""), {}, None):
            bad.append(("start", "", {}))
        for s, cn, ch, f, v, s2 in edges:
            add = pushed(v[Q])
            if add is None:
                bad.append((s, cn, f))
                continue
            new = [T.new_reg(s2, v, r) if r.op != "str" else r for r in pend[s2]]
            left = text(cat(lstr(""), *(add + new)), f, ch)
            right = text(cat(lstr(""), *(list(pend[s]) + [C])), f, ch)
            if left == right:
                continue
            if ch == "/" and left == text(cat(lstr(""), *pend[s]), f, ch) and any(x is True and ends_in_slash(a, pend[s]) for a, x in f.items()):
                continue    # a slash after a slash
            bad.append((s, cn, f))
        return bad

    best = None
    if len(states) > 8:
        raise Unsupported("parse has %d states" % len(states))
    for pick in itertools.product(*[choice[s] for s in states]):
        pend = dict(zip(states, pick))
        bad = lost(pend)
        if best is None or len(bad) < len(best[1]):
            best = (pend, bad)
    pend, bad = best
    sn = lambda s: " ".join(show(x) if isinstance(x, Term) else g.E.adts[x[0]]["variants"][x[1]]["name"] if x[0] in g.E.adts else str(x) for x in s) if isinstance(s, tuple) else str(s)
    need(rep, "G03:conserved", not bad, "at every character, the components so far and the text being collected are the text read, braces included (a slash after a slash may be dropped)", w,
         "; ".join("reading %s in state %s when %s" % (cn, sn(s), cond(f)) for s, cn, f in bad)[:600])
    inparam = {s: bool(pend[s]) and pend[s][0] is lstr("{") for s in states}
    reg = lambda s: pend[s][-1]
    bads = {}
    seen = set()

    def known_good(s, f):
        """what is missing for the collected parameter name to be a name"""
        r = reg(s)
        out = []
        if not any(x is False and a.op == "ieq" and a.a[0] is r and a.a[1] is lstr("") for a, x in f.items()):
            out.append("is empty")
        for ch in "/{":
            if never[s].get(ch):
                continue
            if not any(x is False and a.op == "call" and str(a.a[0]).endswith("contains") and a.a[1][:1] == (r,) and a.a[1][1] in (lchar(ch), lstr(ch)) for a, x in f.items()):
                out.append("has a %s" % ch)
        return out

    # characters that are never collected into a parameter name
    never = {s: {ch: not any(inparam[s2] and inparam[s1] and c2 == ch for s1, cn, c2, f, v, s2 in edges) for ch in "/{"} for s in states}
    for s, cn, ch, f, v, s2 in edges:
        seen.add((s, ch))
        if s is s0 and ch != "/":
            bads.setdefault("slash", "a template may start with %s" % cn)
        if s2 == s0:
            bads.setdefault("slash", "after reading %s the start is reached again" % cn)
        if inparam[s]:
            if ch == "}":
                if inparam[s2]:
                    bads.setdefault("close", "a } may be part of a parameter name when %s" % cond(f))
                m = known_good(s, f)
                for x in m:
                    bads.setdefault("name", "a parameter is accepted whose name %s" % x)
            elif not inparam[s2]:
                bads.setdefault("close", "a parameter may end at %s when %s" % (cn, cond(f)))
        else:
            if ch == "}":
                bads.setdefault("brace", "a } outside a parameter is accepted when %s" % cond(f))
            if (ch == "{") != inparam[s2]:
                bads.setdefault("open", "after %s outside a parameter the text %s a parameter name" % (cn, "is taken for" if inparam[s2] else "is not"))
    # refusals inside the loop
    for f, r in T.inside:
        for s in states:
            rest = T.agrees(s, f)
            if rest is None:
                continue
            if r.op != "agg" or r.a[0] != RES or r.a[1] != 1:
                bads.setdefault("early", "parse returns %s before the end of the template" % show(r)[:100])
            elif s is s0:
                if can(rest, "/"):
                    bads.setdefault("refuse", "a template starting with a slash is refused when %s" % cond(rest))
            elif not inparam[s]:
                for cn, ch in CLASSES:
                    if ch != "}" and can(rest, ch):
                        bads.setdefault("refuse", "%s outside a parameter is refused when %s" % (cn, cond(rest)))
            else:
                rr = reg(s)
                why = [1 for a, x in rest.items() if x is True and ((a.op == "ieq" and a.a[0] is rr and a.a[1] is lstr("")) or (a.op == "call" and str(a.a[0]).endswith("contains") and a.a[1][:1] == (rr,) and a.a[1][1].op in ("char", "str") and a.a[1][1].a[0] in ("/", "{")))]
                for cn, ch in CLASSES:
                    if can(rest, ch) and ch not in ("/", "{") and not (ch == "}" and why):
                        bads.setdefault("refuse", "%s in a parameter is refused when %s" % (cn, cond(rest)))
    # the end of the template
    ends = {}
    for f, r in T.after:
        for s in states:
            rest = T.agrees(s, f)
            if rest is None:
                continue
            good = r.op == "agg" and r.a[0] == RES and r.a[1] == 0
            ends.setdefault(s, []).append(good)
            if not good and (r.op != "agg" or r.a[0] != RES):
                bads.setdefault("end", "parse returns %s" % show(r)[:200])
            elif s is s0 or inparam[s]:
                if good:
                    bads.setdefault("unterminated", "%s is accepted" % ("a template without a leading slash" if s is s0 else "a template ending inside a parameter"))
            elif not good:
                bads.setdefault("end", "a template ending outside a parameter is refused when %s" % cond(rest))
            else:
                v = fld(fld(r, 0, 0), 0, comps_i)
                add = pushed(v)
                if add is None or text(cat(lstr(""), *add), rest, None) != text(cat(lstr(""), *pend[s]), rest, None):
                    bads.setdefault("end", "at the end of a template the components become %s" % show(v)[:200])
    for s in states:
        if s not in ends:
            bads.setdefault("end", "nothing is returned for a template ending in state %s" % sn(s))
    if not any(inparam.values()) or all(inparam[s] or s is s0 for s in states):
        bads.setdefault("open", "parameters are never recognised")
    for s in states:
        for cn, ch in CLASSES:
            must = ch == "/" if s is s0 else (ch in (None, "}") if inparam[s] else ch != "}")
            if must and (s, ch) not in seen:
                bads.setdefault("refuse", "%s is never accepted in state %s" % (cn, sn(s)))
    if T.panics:
        bads.setdefault("panic", "%s line %s: %s" % (T.panics[0]["file"], T.panics[0]["line"], T.panics[0]["what"]))
    for key, desc in (("slash", "a template must start with a slash"), ("open", "a { outside a parameter begins a parameter name, and nothing else does"), ("close", "a } ends a parameter, and nothing else does"),
                      ("name", "a parameter's name is not empty and has neither a slash nor a brace"), ("brace", "a } outside a parameter is refused"), ("early", "nothing is accepted before its end is reached"),
                      ("unterminated", "a template without a leading slash or ending inside a parameter is refused"), ("refuse", "nothing else is refused while reading"), ("end", "at the end the text collected becomes the last component"),
                      ("panic", "parsing never panics")):
        need(rep, "G03:" + key, key not in bads, desc, w, bads.get(key, ""))
    # ---- putting a template together again
    X = [sym("x%d" % i) for i in range(3)]
    els = [agg(CO, con, [X[0]]), agg(CO, par, [X[1]]), agg(CO, con, [X[2]])]
    P = g.struct("PathTemplate", "p", components=mk("seq", tuple(mk("e", x) for x in els)))
    b = impl_item(g, "ToString", PT, "to_string")
    got = [o for o in g.run(b, [P])]
    want = cat(X[0], lstr("{"), X[1], lstr("}"), X[2])
    strip = lambda t: subst(t, {x: x.a[1] for x in subterms(t) if x.op == "disp" and x.a[1] in X})
    need(rep, "G03:to_string", bool(got) and all(strip(o.ret) is want for o in got), "turning a template back into text gives its literals and its parameters' names in braces, in order", g.where(b), show(got[0].ret)[:300] if got else "nothing")
    b = g.method(PT, "names")[0]
    got = g.run(b, [P])
    need(rep, "G03:names", bool(got) and all(strip(o.ret) is mk("seq", (mk("e", X[1]),)) for o in got), "the names of a template are its parameters' names in order", g.where(b), show(got[0].ret)[:300] if got else "nothing")
