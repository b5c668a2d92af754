"""Specifications of the generator properties, fourth part: schema conversion."""
from terms import *
from check_base import *
from interp import St
import iters
import models
from specs_gen import *
from specs_gen2 import *
from specs_gen3 import *

SCH = "schemars::schema::"


class Split(Exception):
    def __init__(self, atom, values):
        self.atom, self.values = atom, values


class Env:
    """what is assumed of the document in one case"""

    def __init__(self, E, d, pc=TRUE):
        self.E, self.d, self.pc = E, d, pc

    def ask(self, atom, values=(True, False)):
        if atom.op == "bool":
            return atom.a[0]
        if atom.op == "var" and atom.a[0].op == "agg":
            return atom.a[0].a[1]
        if atom in self.d:
            return self.d[atom]
        raise Split(atom, values)

    def some(self, x):
        """is the optional value x there?"""
        x = self.ev(x)
        return self.ask(mk("var", x), (0, 1)) == 1

    def guard(self, g):
        """does the guard hold? True, False or the atom to ask"""
        open_ = None
        for a, v in g:
            if a.op == "anyof":
                n = self.E.mrestrict(a.a[0], self.d)
                if n.op == "bool":
                    if n.a[0] is not v:
                        return False
                elif open_ is None:
                    open_ = n.a[0]
            elif a.op == "var" and a.a[0].op == "agg":
                if a.a[0].a[1] != v:
                    return False
            elif a in self.d:
                if self.d[a] != v:
                    return False
            elif open_ is None:
                open_ = a
        return True if open_ is None else open_

    def ev(self, t):
        """the term with its outermost cases decided"""
        while t.op == "phi":
            ask = None
            for g, x in t.a[0]:
                r = self.guard(g)
                if r is True:
                    t, ask = x, None
                    break
                if r is not False and ask is None:
                    ask = r
            else:
                if ask is None:
                    return mk("bottom")
                self.ask(ask, self.E.domains.get(ask, (True, False)))
        return t


def feasible(d):
    """can the facts hold together?"""
    eq = {}
    for a, v in d.items():
        if a.op == "ieq" and v is True:
            t, n = a.a
            if t in eq and eq[t] is not n:
                return False
            eq[t] = n
    for a, v in d.items():
        if a.op == "call" and a.a[0] == "is_empty" and v is True:
            n = eq.get(call("len", a.a[1][0]))
            if n is not None and n is not mk("int", 0):
                return False
        if a.op == "call" and a.a[0] == "is_empty" and v is False and eq.get(call("len", a.a[1][0])) is mk("int", 0):
            return False
    return True


def cases(E, f, pre=(), pc=(), limit=400000):
    """f(env) in every case it distinguishes: yields (facts, result)"""
    todo = [dict(pre)]
    n = 0
    while todo:
        d = todo.pop()
        n += 1
        if n > limit:
            raise Unsupported("more than %d cases" % limit)
        if not feasible(d):
            continue
        if E.pathcond(d, pc) is FALSE:
            continue
        if any(a in d and d[a] != v for a, v in pc if a.op != "anyof"):
            continue
        try:
            r = f(Env(E, d))
        except Split as e:
            for v in e.values:
                todo.append({**d, e.atom: v})
            continue
        yield d, r


class Conv:
    def __init__(self, g):
        self.g = g
        E = self.E = g.E
        self.SO = self.names(SCH + "SchemaObject")
        O, R = g.A("Schema"), g.A("ReferenceOr")
        self.SCHEMA, self.REF = O, R
        # the methods that turn a schema, or a reference or schema, into a schemars schema
        self.convs = {"schema": [], "ref": []}
        for bid, b in sorted(E.bodies.items()):
            if b["argc"] != 1 or b["kind"] not in ("Fn", "AssocFn") or "impl" not in b:
                continue
            ret, a = E.ty(b["locals"][0]), E.ty(b["locals"][1])
            if a.a[0] == "ref":
                a = a.a[1]
            if ret.a[0] != "adt" or ret.a[1] != SCH + "Schema" or a.a[0] != "adt":
                continue
            if a.a[1] == O:
                self.convs["schema"].append(bid)
            elif a.a[1] == R and a.a[2] and a.a[2][0] is not None and a.a[2][0].a[:2] == ("adt", O):
                self.convs["ref"].append(bid)
        self.all = set(self.convs["schema"] + self.convs["ref"])

    def names(self, adt):
        return [f[0] for f in self.E.adts[adt]["variants"][0]["fields"]]

    def run(self, bid, args):
        E = self.E
        keep = (E.opaque_bodies, E.exact, E.maxstates)
        E.opaque_bodies, E.exact, E.maxstates = set(E.opaque_bodies) | self.all, True, 1
        try:
            return self.g.run(bid, args)
        finally:
            E.opaque_bodies, E.exact, E.maxstates = keep

    def st(self, name, base, **kw):
        a = self.g.A(name)
        return agg(a, 0, [kw[f] if f in kw else sym(base + "." + f) for f in self.names(a)])

    # ---------------------------------------------------------- results
    def canon(self, t):
        """conversions of parts by one name; boxes are what they hold"""
        if t.op == "call":
            if t.a[0] in self.all:
                return call("convert", self.canon(t.a[1][0]))
            if t.a[0].rsplit("::", 1)[-1] == "unbox" and "ReferenceOr" in t.a[0]:
                return self.canon(t.a[1][0])
        if t.op in ("phi",):
            return t
        return rebuild(t, self.canon)

    def fields(self, x, adt):
        if x.op != "agg" or x.a[0] != adt:
            return None
        return dict(zip(self.names(adt), x.a[2]))

    def opt(self, env, x):
        """None, or what the optional value x holds"""
        x = env.ev(x)
        if x.op == "agg" and x.a[0] == OPT:
            return x.a[2][0] if x.a[1] else None
        if x.op == "bottom":
            return None
        return fld(x, 1, 0) if env.ask(mk("var", x), (0, 1)) else None

    def value(self, env, want, got):
        """is the value got the one wanted? (both terms; optional ones are decided)"""
        got, want = env.ev(got), env.ev(want)
        if self.canon(got) is self.canon(want):
            return None
        if OPT in (x.a[0] for x in (got, want) if x.op == "agg"):
            g, w = self.opt(env, got), self.opt(env, want)
            if g is None and w is None:
                return None
            if g is None or w is None:
                return "expected %s, found %s" % tuple(show(x)[:200] if x is not None else "None" for x in (w, g))
            return self.value(env, w, g)
        if got.op == want.op == "agg" and got.a[:2] == want.a[:2] and len(got.a[2]) == len(want.a[2]):
            for x, y in zip(want.a[2], got.a[2]):
                r = self.value(env, x, y)
                if r:
                    return r
            return None
        return "expected %s, found %s" % (show(self.canon(want))[:200], show(self.canon(got))[:200])

    def each(self, got):
        """(source, binder, element) of a sequence made of one element per element of a source"""
        if got.op == "mapof":
            got = got.a[1]
        if got.op == "seq" and len(got.a[0]) == 1:
            p = got.a[0][0]
            if p.op == "star" and p.a[2].op == "seq" and len(p.a[2].a[0]) == 1 and p.a[2].a[0][0].op == "e":
                src = p.a[0]
                while src.op == "iter" or src.op == "call" and src.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "entries"):
                    src = src.a[0] if src.op == "iter" else src.a[1][0]
                return src, p.a[1], p.a[2].a[0][0].a[0]
            if p.op == "spread":
                src = p.a[0]
                b = mk("binder", 0)
                return src, b, b
        return None, None, None

    def whole(self, env, got, src, element, what, empty=None):
        """the collection got has element(env, x) for each x of src"""
        got = env.ev(got)
        if self.canon(got) is src and element is None:
            return None
        if got.op == "map" and not got.a[1] or got.op in ("seq", "mapof") and got.a[-1] in ((), mk("seq", ())):
            if empty is not None and env.ask(empty) is True:
                return None
            return "%s is empty whatever the document says" % what
        s, b, e = self.each(got)
        if s is None:
            return "%s is not made from the elements of the document's: %s" % (what, show(got)[:200])
        if s is not src:
            return "%s is made from %s, not %s" % (what, show(s), show(src))
        if element is None:
            return None if e is b else "%s changes its elements: %s" % (what, show(e)[:200])
        for d, r in cases(self.E, lambda env2: element(env2, b, env2.ev(e)), env.d):
            if r:
                return "%s, an element: %s" % (what, r)
        return None

    def nothing(self, env, x):
        """is this optional validation (decided) no constraint at all?"""
        x = self.opt(env, x)
        if x is None:
            return True
        if x.op != "agg":
            return False
        for f, v in zip(self.names(x.a[0]), x.a[2]):
            v = env.ev(v)
            if v.op == "map" and not v.a[1] or v.op in ("seq", "mapof") and v.a[-1] in ((), mk("seq", ())):
                continue
            if v.op == "agg" and v.a[0] == OPT or v.op not in ("bool", "seq", "mapof", "map"):
                if self.opt(env, v) is not None:
                    return False
                continue
            if v is not FALSE:
                return False
        return True

    # ---------------------------------------------------------- what is expected
    def u32(self, x):
        """a bound as far as 32 bits can say it"""
        U32 = mk("T", "prim", "u32")

        M = 2**32 - 1

        def fits(env, w):
            for a, v in env.d.items():
                if a.op == "lt" and a.a[1] is w and a.a[0].op == "int":
                    k = a.a[0].a[0]
                    if v and k >= M or not v and k <= M:
                        return not v
                if a.op == "lt" and a.a[0] is w and a.a[1].op == "int":
                    k = a.a[1].a[0]
                    if v and k <= M + 1 or not v and k >= M + 1:
                        return v
            return env.ask(mk("fits", w, U32))

        def f(env, got, what):
            w = self.opt(env, x)
            if w is None:
                want = NONE
            else:
                y = self.opt(env, got)
                if y is not None:
                    env.ev(y)
                want = some(mk("cast", w, U32) if fits(env, w) else mk("int", M))
            r = self.value(env, want, got)
            return r and "%s: %s" % (what, r)
        return f

    def same(self, x):
        def f(env, got, what):
            r = self.value(env, x, got)
            return r and "%s: %s" % (what, r)
        return f

    def f64(self, x):
        F = mk("T", "prim", "f64")

        def f(env, got, what):
            w = self.opt(env, x)
            r = self.value(env, NONE if w is None else some(mk("cast", w, F)), got)
            return r and "%s: %s" % (what, r)
        return f

    def when(self, cond, inner):
        """inner's expectation when cond(env) holds, otherwise None"""
        def f(env, got, what):
            if cond(env):
                return inner(env, got, what)
            r = self.opt(env, got)
            return None if r is None else "%s: expected None, found %s" % (what, show(r)[:200])
        return f

    def absent(self):
        return self.when(lambda env: False, None)

    def empty(self):
        def f(env, got, what):
            got = env.ev(got)
            if got.op == "map" and not got.a[1] or got.op == "mapof" and got.a[1] is mk("seq", ()):
                return None
            return "%s: expected nothing, found %s" % (what, show(got)[:200])
        return f

    def object_(self, adt, wants, order=()):
        """an optional validation with these fields (None when all are nothing)"""
        adt = SCH + adt

        def f(env, got, what):
            x = self.opt(env, got)
            x = self.g_default(adt) if x is None else env.ev(x)
            fs = self.fields(x, adt)
            if fs is None:
                return "%s: not followed: %s" % (what, show(x)[:200])
            for n in fs:
                r = wants.get(n, self.absent())(env, fs[n], what + "." + n)
                if r:
                    return r
            return None
        return f

    def g_default(self, adt):
        return models.schemars_default(self.E, adt)

    def types(self, want):
        """the instance types are the ones want(env) names (None: no restriction)"""
        T, S = SCH + "InstanceType", SCH + "SingleOrVec"

        def f(env, got, what):
            w = want(env)
            x = self.opt(env, got)
            if x is None:
                return None if w is None else "%s: expected %s, found no restriction" % (what, sorted(w))
            x = env.ev(x)
            if x.op != "agg" or x.a[0] != S:
                return "%s: not followed: %s" % (what, show(x)[:200])
            v = env.ev(x.a[2][0])
            vs = [v]
            if x.a[1] == 1:
                vs = self.listed(env, v)
                if vs is None:
                    return "%s: not followed: %s" % (what, show(v)[:200])
            names = []
            for y in vs:
                y = env.ev(y)
                if y.op != "agg" or y.a[0] != T:
                    return "%s: not followed: %s" % (what, show(y)[:200])
                names.append(self.E.adts[T]["variants"][y.a[1]]["name"])
            if w is None or sorted(names) != sorted(w):
                return "%s: expected %s, found %s" % (what, "no restriction" if w is None else sorted(w), names)
            return None
        return f

    def listed(self, env, v):
        """the elements of a list in this case"""
        v = env.ev(v)
        if v.op == "array" or v.op == "agg" and v.a[0] == "array":
            return list(v.a[-1])
        if v.op != "seq":
            return None
        out = []
        for p in v.a[0]:
            if p.op == "e":
                out.append(p.a[0])
            elif p.op == "spread":
                r = self.listed(env, p.a[0])
                if r is None:
                    return None
                out += r
            else:
                return None
        return out

    def schema_objects(self, env, v):
        """a list of schemas: [SchemaObject's fields or the term]"""
        xs = self.listed(env, v)
        if xs is None:
            return None
        out = []
        for x in xs:
            x = env.ev(x)
            if x.op == "agg" and x.a[0] == SCH + "Schema" and x.a[1] == 1:
                x = env.ev(x.a[2][0])
            out.append(x)
        return out


def g13(g, rep):
    """Schema conversion"""
    c = Conv(g)
    E = g.E
    rep.ob("entry", c.convs["schema"] and c.convs["ref"], "a schema and a schema reference each have a conversion to a schemars schema", "", "%s" % c.convs)
    if rep.failed:
        return
    real = []
    dele = {}
    for bid in c.convs["schema"] + c.convs["ref"]:
        outs = c.run(bid, [sym("s")]) if bid in c.convs["ref"] else None
        if outs is None:
            x = c.run(bid, [c.st("Schema", "s", schema_data=c.st("SchemaData", "d"), schema_kind=agg(g.A("SchemaKind"), g.vi(g.A("SchemaKind"), "Not"), [sym("n")]))])
            if len(x) == 1 and x[0].ret.op == "call" and x[0].ret.a[0] in c.all:
                y = c.run(bid, [sym("s")])
                if len(y) == 1 and y[0].ret.op == "call" and y[0].ret.a[0] in c.all and y[0].ret.a[1][0] is sym("s"):
                    dele[bid] = y[0].ret.a[0]
                    continue
            real.append(bid)
            continue
        if len(outs) == 1 and outs[0].ret.op == "call" and outs[0].ret.a[0] in c.all and outs[0].ret.a[1][0] is sym("s"):
            dele[bid] = outs[0].ret.a[0]
            continue
        reference(g, rep, c, bid, outs)
    for b in sorted(dele):
        seen, x = [], b
        while x in dele and x not in seen:
            seen.append(x)
            x = dele[x]
        rep.ob("delegates:" + b, x not in dele and (x in c.convs["schema"]) == (b in c.convs["schema"]), "a conversion that only calls another ends in one that does the work", g.where(b), "%s" % seen)
    rep.ob("real", bool(real), "a conversion of a schema that does the work", "", "%s" % dele)
    for bid in real:
        kinds(g, rep, c, bid)


def reference(g, rep, c, bid, outs):
    """a reference stays the same reference; a schema in its place is converted"""
    R = c.REF
    s = sym("s")
    bad = None
    hit = set()
    for o in outs:
        def f(env):
            v = env.ask(mk("var", s), (0, 1))
            x = c.canon(env.ev(o.ret))
            name = E.adts[R]["variants"][v]["name"]
            hit.add(name)
            if name == "Item":
                return None if x is call("convert", fld(s, v, 0)) else "a schema becomes %s" % show(x)[:300]
            if x.op != "agg" or x.a[:2] != (SCH + "Schema", 1):
                return "a reference becomes %s" % show(x)[:300]
            fs = c.fields(env.ev(x.a[2][0]), SCH + "SchemaObject")
            if fs is None:
                return "a reference becomes %s" % show(x)[:300]
            for n in c.SO:
                want = c.same(some(fld(s, v, 0))) if n == "reference" else c.empty() if n == "extensions" else c.absent()
                r = want(env, fs[n], n)
                if r:
                    return "a reference: " + r
            return None
        E = c.E
        for d, r in cases(E, f, {}, list(o.facts.items())):
            bad = bad or r
    rep.ob("reference:" + bid, bad is None and hit == {"Reference", "Item"}, "a reference stays a reference to the same schema and a schema is converted", g.where(bid), bad or "%s" % sorted(hit))


def kinds(g, rep, c, bid):
    E = g.E
    K, T = g.A("SchemaKind"), g.A("Type")
    nullable = sym("d.nullable")
    t = lambda n: sym("t." + n)
    null = lambda env: ["Null"] if env.ask(nullable) else []

    def metadata(env, got, what):
        M = SCH + "Metadata"
        x = c.opt(env, got)
        x = c.g_default(M) if x is None else env.ev(x)
        fs = c.fields(x, M)
        if fs is None:
            return "%s: not followed: %s" % (what, show(x)[:200])
        for n in fs:
            if n == "id":
                r = c.absent()(env, fs[n], n)
            elif n == "examples":
                xs = c.listed(env, fs[n])
                w = c.opt(env, sym("d.example"))
                r = None if xs is not None and [env.ev(y) for y in xs] == ([] if w is None else [w]) else "expected %s, found %s" % (w and show(w), show(fs[n])[:200])
            else:
                w, y = sym("d." + n), env.ev(fs[n])
                if w is y:
                    continue
                if n in ("deprecated", "read_only", "write_only"):
                    r = None if y.op == "bool" and env.ask(w) is y.a[0] else "expected the document's %s, found %s" % (n, show(y)[:200])
                else:
                    r = c.value(env, w, y)
            if r:
                return "%s.%s: %s" % (what, n, r)
        return None

    def extensions(env, got, what):
        return c.whole(env, got, sym("d.extensions"), None, what)

    def run(name, kind, wants, facts=(), unsupported=None, wrap=False):
        """every field of the result is what wants says"""
        wants = dict(wants)
        wants.setdefault("metadata", metadata)
        wants.setdefault("extensions", extensions)
        try:
            outs = c.run(bid, [c.st("Schema", "s", schema_data=c.st("SchemaData", "d"), schema_kind=kind)])
        except Unsupported as e:
            rep.ob("kind:" + name, False, "the conversion of %s schemas is followed" % name, g.where(bid), "not established: %s" % e)
            return
        # no schema that can be converted is refused
        pc = FALSE
        for o in outs:
            pc = E.mop(False, pc, E.mguard(o.facts.items()))
        bad = None
        if pc is not TRUE:
            none = E.asguard(E.mneg(pc))

            def refused(env):
                if env.guard(none) is False:
                    return None
                if unsupported is not None and unsupported(env):
                    return None
                r = env.guard(none)
                if r is True:
                    return "no result when %s" % {show(a): v for a, v in env.d.items()}
                if r is not False:
                    env.ask(r, E.domains.get(r, (True, False)))
                return None
            for d, r in cases(E, refused):
                bad = bad or r
        rep.ob("kind:" + name, bool(outs) and bad is None, "every %s schema has a conversion" % name, g.where(bid), bad or "")

        for n in c.SO:
            bad = None
            k = 0
            for o in outs:
                def f(env):
                    x = env.ev(o.ret)
                    if x.op != "agg" or x.a[:2] != (SCH + "Schema", 1):
                        return "not a schema object: %s" % show(x)[:200]
                    fs = c.fields(env.ev(x.a[2][0]), SCH + "SchemaObject")
                    if fs is None:
                        return "not followed: %s" % show(x)[:200]
                    if wrap and wrap(env):
                        return wrapped(env, fs, n)
                    return wants.get(n, c.absent())(env, fs[n], n)

                def wrapped(env, fs, n):
                    if n == "metadata":
                        return metadata(env, fs[n], n)
                    if n == "extensions":
                        return extensions(env, fs[n], n)
                    sub = c.opt(env, fs["subschemas"])
                    ss = c.fields(env.ev(sub), SCH + "SubschemaValidation") if sub is not None else None
                    if ss is None:
                        return "not followed: %s" % show(fs["subschemas"])[:200]
                    one = c.opt(env, ss["one_of"])
                    xs = c.schema_objects(env, one) if one is not None else None
                    if xs is None or len(xs) != 2:
                        return "expected one of null and the schema, found %s" % show(fs["subschemas"])[:300]
                    if n == "subschemas":
                        for m in ss:
                            if m != "one_of" and c.opt(env, ss[m]) is not None:
                                return "subschemas.%s next to the one of null" % m
                    elif c.opt(env, fs[n]) is not None:
                        return "%s next to the one of null" % n
                    both = [c.fields(x, SCH + "SchemaObject") for x in xs]
                    if None in both:
                        return "not followed: %s" % show(one)[:300]
                    isnull = c.types(lambda env: ["Null"])
                    ns = [x for x in both if isnull(env, x["instance_type"], "") is None]
                    inner = [x for x in both if x not in ns]
                    if len(ns) != 1 or len(inner) != 1:
                        return "expected one of null and the schema, found %s" % show(one)[:300]
                    for m in c.SO:
                        if m not in ("instance_type", "extensions") and c.opt(env, ns[0][m]) is not None:
                            return "null has a %s" % m
                    r = c.empty()(env, ns[0]["extensions"], "null's extensions")
                    if r:
                        return r
                    if n == "instance_type":
                        # what is said of the whole is not repeated inside
                        for m in ("metadata", "extensions"):
                            r = (c.empty() if m == "extensions" else c.absent())(env, inner[0][m], "the inner " + m)
                            if r:
                                return r
                    w = c.absent() if n == "instance_type" else wants.get(n, c.absent())
                    return w(env, inner[0][n], n)
                for d, r in cases(E, f, dict(facts), list(o.facts.items())):
                    k += 1
                    if r and bad is None:
                        bad = "%s (when %s)" % (r, ", ".join("%s=%s" % (show(a)[:80], v) for a, v in d.items()))
            rep.ob("field:%s:%s" % (name, n), bad is None, "the %s of a %s schema's conversion says what the document says" % (n, name), g.where(bid), bad or "%d cases" % k)

    def kind_types(n):
        return c.types(lambda env: [n] + null(env))

    def formats(adt, names):
        A = g.A(adt)
        V = g.A("VariantOrUnknownOrEmpty")

        def f(env, got, what):
            x = t("format")
            v = E.adts[V]["variants"][env.ask(mk("var", x), tuple(range(3)))]["name"]
            if v == "Empty":
                want = NONE
            elif v == "Unknown":
                want = some(fld(x, g.vi(V, v), 0))
            else:
                i = env.ask(mk("var", fld(x, g.vi(V, v), 0)), tuple(range(len(E.adts[A]["variants"]))))
                want = some(mk("str", names[E.adts[A]["variants"][i]["name"]]))
            r = c.value(env, want, got)
            return r and "%s: %s" % (what, r)
        return f

    VALUE = "serde_json::value::Value"
    vnames = [v["name"] for v in E.adts[VALUE]["variants"]]

    def enum(how):
        """None when there are none, otherwise the listed values"""
        src = t("enumeration")
        empty = call("is_empty", src)

        def element(env, x, got):
            if got.op == "bottom":
                return None
            w = c.opt(env, x)
            if w is None:
                want = [agg(VALUE, vnames.index("Null"), ())]
            else:
                want = how(w) + [call("convert", mk("tyname", mk("T", "adt", VALUE, ())), w)]
            got = c.canon(got)
            if any(got is c.canon(y) for y in want):
                return None
            return "expected %s, found %s" % (show(want[0]), show(got)[:200])

        def f(env, got, what):
            if env.ask(empty):
                r = c.opt(env, got)
                return None if r is None else "%s: expected None for no values, found %s" % (what, show(r)[:200])
            x = c.opt(env, got)
            if x is None:
                return "%s: the listed values are lost" % what
            return c.whole(env, x, src, element, what)
        return f

    num = lambda n: mk("T", "adt", "serde_json::number::Number", ())
    vi = vnames.index
    conv = lambda x: [agg(VALUE, vi("Number"), [call("convert", mk("tyname", num(0)), x)])]
    flt = lambda x: [agg(VALUE, vi("Number"), [fld(call("serde_json::number::Number::from_f64", x), 1, 0)])]

    def bound(n, other, exclusive, cast, opt_flag):
        """`n` when the document's bound is (not) exclusive"""
        x = t(n)
        flag = t("exclusive_" + n)

        def cond(env):
            on = env.ask(fld(flag, 1, 0)) if opt_flag and env.some(flag) else False if opt_flag else env.ask(flag)
            return on is exclusive
        return c.when(cond, c.f64(x) if cast else c.same(x))

    def number(cast, opt_flag=False):
        return c.object_("NumberValidation", dict(
            multiple_of=(c.f64 if cast else c.same)(t("multiple_of")),
            maximum=bound("maximum", 0, False, cast, opt_flag), exclusive_maximum=bound("maximum", 0, True, cast, opt_flag),
            minimum=bound("minimum", 0, False, cast, opt_flag), exclusive_minimum=bound("minimum", 0, True, cast, opt_flag)))

    def strings():
        return c.object_("StringValidation", dict(max_length=c.u32(t("max_length")), min_length=c.u32(t("min_length")), pattern=c.same(t("pattern"))))

    def required(env, got, what):
        return c.whole(env, got, t("required"), None, what, call("is_empty", t("required")))

    def properties(env, got, what):
        def el(env, b, got):
            # a reference to an entry is a pair of references
            for p in (b, ):
                k, v = fld(p, 0, 0), fld(p, 0, 1)
            if got.op == "agg" and len(got.a[2]) == 2 and got.a[2][0] is k and c.canon(env.ev(got.a[2][1])) is call("convert", v):
                return None
            return "expected the property's name and schema, found %s" % show(got)[:200]
        return c.whole(env, got, t("properties"), el, what, call("is_empty", t("properties")))

    AP = g.A("AdditionalProperties")

    def additional(env, got, what):
        x = c.opt(env, t("additional_properties"))
        if x is None:
            want = NONE
        elif E.adts[AP]["variants"][env.ask(mk("var", x), (0, 1))]["name"] == "Any":
            want = some(agg(SCH + "Schema", 0, [fld(x, g.vi(AP, "Any"), 0)]))
        else:
            want = some(call("convert", fld(x, g.vi(AP, "Schema"), 0)))
        r = c.value(env, want, got)
        return r and "%s: %s" % (what, r)

    def objects():
        return c.object_("ObjectValidation", dict(max_properties=c.u32(t("max_properties")), min_properties=c.u32(t("min_properties")), required=required, properties=properties,
                                                  pattern_properties=c.empty(), additional_properties=additional))

    def items(env, got, what):
        x = c.opt(env, t("items"))
        want = NONE if x is None else some(agg(SCH + "SingleOrVec", 0, [call("convert", x)]))
        r = c.value(env, want, got)
        return r and "%s: %s" % (what, r)

    def unique(opt):
        def f(env, got, what):
            x = t("unique_items")
            want = (env.ask(fld(x, 1, 0)) if env.some(x) else False) if opt else env.ask(x)
            y = c.opt(env, got)
            y = False if y is None else True if env.ev(y) is TRUE else False if env.ev(y) is FALSE else env.ask(env.ev(y))
            return None if y is want else "%s: expected %s, found %s" % (what, want, show(got)[:200])
        return f

    def arrays(opt=False):
        return c.object_("ArrayValidation", dict(items=items, max_items=c.u32(t("max_items")), min_items=c.u32(t("min_items")), unique_items=unique(opt)))

    def typed(n):
        return agg(K, g.vi(K, "Type"), [agg(T, g.vi(T, n), [c.st(n + "Type", "t")])])

    # what `format` and `enumeration` are called is openapiv3's; their meaning is JSON Schema's
    run("string", typed("String"), dict(instance_type=kind_types("String"), format=formats("StringFormat", dict(Date="date", DateTime="date-time", Password="password", Byte="byte", Binary="binary")),
                                        enum_values=enum(lambda x: [agg(VALUE, vi("String"), [x])]), string=strings()))
    run("number", typed("Number"), dict(instance_type=kind_types("Number"), format=formats("NumberFormat", dict(Float="float", Double="double")), enum_values=enum(flt), number=number(False)))
    run("integer", typed("Integer"), dict(instance_type=kind_types("Integer"), format=formats("IntegerFormat", dict(Int32="int32", Int64="int64")), enum_values=enum(conv), number=number(True)))
    run("object", typed("Object"), dict(instance_type=kind_types("Object"), object=objects()))
    run("array", typed("Array"), dict(instance_type=kind_types("Array"), array=arrays()))
    run("boolean", typed("Boolean"), dict(instance_type=kind_types("Boolean"), enum_values=enum(lambda x: [agg(VALUE, vi("Bool"), [x])])))

    # combinations
    def members(src):
        def f(env, got, what):
            x = c.opt(env, got)
            if x is None:
                return "%s: the members are lost" % what
            return c.whole(env, x, src, lambda env, b, e: None if c.canon(e) is call("convert", b) else "expected the member's conversion, found %s" % show(e)[:200], what)
        return f
    for nm, f in (("OneOf", "one_of"), ("AllOf", "all_of"), ("AnyOf", "any_of")):
        run(nm, agg(K, g.vi(K, nm), [sym("subs")]), dict(subschemas=c.object_("SubschemaValidation", {f: members(sym("subs"))})), wrap=lambda env: env.ask(nullable))
    run("Not", agg(K, g.vi(K, "Not"), [sym("subs")]), dict(subschemas=c.object_("SubschemaValidation", {"not": c.same(some(call("convert", sym("subs"))))})), wrap=lambda env: env.ask(nullable))

    # a schema without a (known) type
    TYPES = dict(boolean="Boolean", object="Object", array="Array", number="Number", string="String", integer="Integer")
    colls = ("required", "enumeration", "one_of", "all_of", "any_of")
    order = c.names(g.A("AnySchema"))

    def present(env, n):
        x = t(n)
        if n == "properties":
            return not env.ask(call("is_empty", x))
        if n in colls:
            return not env.ask(call("is_empty", x))
        return env.some(x)

    def excl(env, n):
        x = t("exclusive_" + n)
        return env.some(x) and env.ask(fld(x, 1, 0))

    def anyfield(env, ns):
        return any(present(env, n) for n in ns)

    OBJ = ("properties", "required", "additional_properties", "min_properties", "max_properties")
    ARR = ("items", "min_items", "max_items", "unique_items")
    NUM = ("multiple_of", "minimum", "maximum")
    STR = ("pattern", "min_length", "max_length")
    SUB = ("one_of", "all_of", "any_of", "not")

    def only_null(env):
        """nothing but an enumeration of null"""
        if not present(env, "enumeration") or anyfield(env, [n for n in order if n != "enumeration"]):
            return False
        if not env.ask(mk("ieq", call("len", t("enumeration")), mk("int", 1))):
            return False
        x = call("core::ops::index::Index::index", t("enumeration"), mk("int", 0))
        return env.ask(mk("var", x), tuple(range(len(vnames)))) == vi("Null")

    def named(env):
        x = t("typ")
        if not env.some(x):
            return None
        for s in TYPES:
            if env.ask(mk("ieq", fld(x, 1, 0), mk("str", s))):
                return s
        return False

    def inferred(env):
        return [n for n, fs in (("Object", OBJ), ("Array", ARR), ("Number", NUM), ("String", STR)) if anyfield(env, fs)]

    def any_wrap(env):
        return not env.some(t("typ")) and env.ask(nullable) and not inferred(env) and anyfield(env, SUB)

    def any_types(env):
        n = named(env)
        if n:
            return [TYPES[n]] + null(env)
        if only_null(env):
            return ["Null"]
        if not env.ask(nullable):
            return None
        ts = inferred(env)
        return ts + ["Null"] if ts else None

    def unsupported(env):
        return named(env) is False or any(excl(env, n) and not env.some(t(n)) for n in ("minimum", "maximum"))

    def any_enum(env, got, what):
        x = c.opt(env, got)
        if not present(env, "enumeration"):
            return None if x is None else "%s: expected None, found %s" % (what, show(x)[:200])
        if x is None:
            return None if only_null(env) else "%s: the listed values are lost" % what
        return c.whole(env, x, t("enumeration"), None, what)

    def sub(n):
        return c.when(lambda env: present(env, n), members(t(n)))

    def sub_not(env, got, what):
        x = c.opt(env, t("not"))
        r = c.value(env, NONE if x is None else some(call("convert", x)), got)
        return r and "%s: %s" % (what, r)

    run("untyped", agg(K, g.vi(K, "Any"), [c.st("AnySchema", "t")]), dict(
        instance_type=c.types(any_types), format=c.same(t("format")), enum_values=any_enum, string=strings(), number=number(False, True), object=objects(), array=arrays(True),
        subschemas=c.object_("SubschemaValidation", dict(one_of=sub("one_of"), all_of=sub("all_of"), any_of=sub("any_of"), **{"not": sub_not}))), unsupported=unsupported, wrap=any_wrap)
