"""What a reference in the document stands for (G20)."""
from specs_gen import *
from interp import T

KINDS = (("Parameter", "parameters", "parameters"), ("RequestBody", "request_bodies", "requestBodies"), ("Response", "responses", "responses"), ("Schema", "schemas", "schemas"))


def last(t):
    return str(t.a[0]).rsplit("::", 1)[-1] if t.op == "call" else None


class Following:
    """`item` of a reference to a component of one kind"""

    def __init__(self, g, kind, field, section):
        self.g, self.kind, self.prefix = g, kind, "#/components/%s/" % section
        self.RO = g.A("ReferenceOr")
        self.R, self.I = g.vi(self.RO, "Reference"), g.vi(self.RO, "Item")
        self.comps = sym("C")
        self.map = g.get(self.comps, g.A("Components"), field)

    def key(self, k, r, facts):
        """what is wrong with k as the name the reference text r gives"""
        # what is left of r without the leading text
        lead, t = "", k
        while t.op == "fld" and t.a[1:] == (1, 0) and last(t.a[0]) == "strip_prefix" and len(t.a[0].a[1]) == 2 and t.a[0].a[1][1].op in ("str", "char"):
            lead, t = t.a[0].a[1][1].a[0] + lead, t.a[0].a[1][0]
        if t is r and lead == self.prefix:
            return None
        # r from where the leading text ends, once it is known to be there
        if k.op == "call" and last(k) == "index" and k.a[1][0] is r and k.a[1][1] is agg("core::ops::range::RangeFrom", 0, (lint(len(self.prefix)),)):
            if any(v is True and last(a) == "starts_with" and tuple(a.a[1]) == (r, lstr(self.prefix)) for a, v in facts.items()):
                return None
        # the last piece, once the rest is known
        if k.op == "fld" and k.a[0].op == "fld" and last(k.a[0].a[0]) == "rsplit_once" and tuple(k.a[0].a[0].a[1]) in ((r, lchar("/")), (r, lstr("/"))):
            left = fld(k.a[0], 0, 0)
            if k is fld(k.a[0], 0, 1) and any(v is True and any(x is left for x in a.a) and any(x is lstr(self.prefix[:-1]) for x in a.a) for a, v in facts.items() if a.op in ("eq", "ieq")):
                return None
        if t is r and lead:
            return "the name is what follows '%s', not '%s'" % (lead, self.prefix)
        return "the name is %s of the reference, whatever that starts with" % show(subst(k, {r: sym("reference")}))[:150]

    def entry(self, e, r, facts):
        """what is wrong with the option e as the entry the reference text r names"""
        if not (e.op == "call" and last(e) == "get" and len(e.a[1]) == 2):
            return "a reference stands for %s" % show(e)[:200]
        if e.a[1][0] is not self.map:
            return "a reference is looked up in %s" % show(e.a[1][0])[:100]
        return self.key(e.a[1][1], r, facts)

    def text(self, ro):
        return fld(ro, self.R, 0)

    def check(self, item):
        """{clause: complaint}"""
        g, bad = self.g, {}
        put = lambda k, why: bad.setdefault(k, why) if why else None
        ty = (T("adt", g.A(self.kind), ()),)
        # written in place
        for comps in (sym("Cs"), NONE):
            for o in g.run(item, [agg(self.RO, self.I, (sym("x"),)), comps], ty):
                if o.ret is not ok(sym("x")):
                    put("inplace", "what is written in place becomes %s" % show(o.ret)[:200])
        # nothing to refer to
        r = sym("r")
        ref = agg(self.RO, self.R, (r,))
        for o in g.run(item, [ref, NONE], ty):
            if not (o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 1):
                put("unresolved", "without components a reference becomes %s" % show(o.ret)[:200])
        # an entry
        n = 0
        for o in g.run(item, [ref, some(self.comps)], ty):
            for a in alternatives(o.ret) if o.ret.op == "phi" else [o]:
                f = merge_facts(a.facts, o.facts)
                if f is None:
                    continue
                v = a.ret
                if v.op == "agg" and v.a[0] == RES and v.a[1] == 1:
                    put("always", self.reason(f, item))
                    continue
                n += 1
                if v.op == "agg" and v.a[0] == RES:
                    v = v.a[2][0]
                    if v.op == "fld" and v.a[1:] == (0, 0) and v.a[0].op == "call" and v.a[0].a[0] == item:
                        v = v.a[0]
                self.found(put, v, r, f, item)
        if not n:
            put("follow", "no reference is followed")
        return bad

    def hops(self, e, r, f):
        """what is wrong with e as what r stands for, through any number of entries that are references themselves"""
        if not (e.op == "fld" and e.a[1:] == (1, 0)):
            return "a reference stands for %s" % show(e)[:200]
        for x in subterms(e):
            if x is not e and x.op == "fld" and x.a[1:] == (self.R, 0) and f.get(var(x.a[0])) == self.R and self.entry(e.a[0], x, f) is None:
                return self.hops(x.a[0], r, f)
        return self.entry(e.a[0], r, f)

    def reason(self, f, item):
        """what is wrong with refusing a reference when f"""
        other = None
        for a, v in f.items():
            if a.op == "var" and a.a[0].op == "call" and a.a[0].a[0] == item:
                # the entry could not be followed
                if v == 1:
                    return None
                continue
            if a.op == "var" and last(a.a[0]) in ("strip_prefix", "get", "rsplit_once"):
                if v == 0:
                    return None
            elif last(a) == "starts_with" or a.op in ("eq", "ieq"):
                if v is False:
                    return None
            elif not (a.op == "var" and (a.a[0].op == "during" or a.a[0] is self.comps)):
                other = other or "it is refused when %s" % cond({a: v})[:250]
        return other

    def found(self, put, v, r, f, item):
        final = None
        if v.op == "call" and v.a[0] == item:
            # the entry, followed in turn
            put("follow", self.hops(v.a[1][0], r, f))
            if v.a[1][1] not in (some(self.comps), self.comps):
                put("follow", "references are followed among %s" % show(v.a[1][1])[:100])
            seen = [v.a[1][0]]
        elif v.op == "fld" and v.a[1:] == (self.I, 0) and v.a[0].op == "during" and v.a[0].a[0].op == "chain" and f.get(var(v.a[0])) == self.I:
            # the first of the entries that follow one another that is no reference
            start, b, step = v.a[0].a[0].a
            put("follow", self.entry(start, r, f))
            put("follow", self.entry(step, self.text(b), f))
            seen, final = [start, step], v.a[0]
        elif v.op == "fld" and v.a[1:] == (self.I, 0) and f.get(var(v.a[0])) == self.I:
            put("follow", self.hops(v.a[0], r, f))
            seen, final = [v.a[0]], v.a[0]
        else:
            put("follow", "a reference stands for %s" % show(v)[:250])
            return
        # under no further condition
        for a, val in f.items():
            if a.op == "var" and (a.a[0] is final or a.a[0].op == "call" and a.a[0].a[0] == item):
                continue
            if a.op == "var" and any(x is a.a[0] for s in seen for x in subterms(s)) and val == (1 if a.a[0].op == "call" else self.R):
                continue
            if last(a) in ("starts_with",) and val is True or a.op in ("eq", "ieq") and val is True:
                continue
            put("always", "a component is only found when %s" % cond({a: val})[:200])


def g20(g, rep):
    item = g.trait_fn("ReferenceOrExt", "item")
    if len(item) != 1:
        raise Missing("the function that follows references")
    item = item[0]
    w = g.where(item)
    g.opaque()
    looped = g.E.bodies[item]
    g.E.bodies[item] = g.E.written[item]
    for kind, field, section in KINDS:
        bad = Following(g, kind, field, section).check(item)
        for k, desc in (("inplace", "is used as it is where it is written in place"), ("follow", "that is referred to is the one of that name among those of its kind, references followed to the end"),
                        ("unresolved", "that is referred to but not there yields no code"), ("always", "that is there is found, whatever its name")):
            need(rep, "G20:%s:%s" % (k, kind), k not in bad, "a %s %s" % (kind, desc), w, bad.get(k))
    g.E.bodies[item] = looped
    # every reference of an operation is followed in the document's components
    gbp = g.method(g.adt("Generator"), "get_body_param")[0]
    comps = sym("components")
    runs = [("operation", g.op_where(), g.operation())]
    g.opaque(free=("sanitize",), traits=("ToSchema", "Convert", "ReferenceOrExt", "FromStr"))
    runs.append(("body", g.where(gbp), g.run(gbp, [sym("gen"), sym("op"), comps])))
    for key, w2, outs in runs:
        n, bad = set(), None
        for o in outs:
            for t in {x for y in list(o.facts) + [o.ret] for x in subterms(y)}:
                if t.op == "call" and t.a[0] == item:
                    n.add(t.a[1][0])
                    if t.a[1][1] is not comps:
                        bad = "it is followed in %s" % show(t.a[1][1])[:100]
        need(rep, "G20:among:" + key, bool(n) and bad is None, "a reference is followed in the components of the document (%s)" % key, w2, bad or "no reference is followed")
    # the named schemas
    spec = sym("spec")
    cs = g.get(spec, g.A("OpenAPI"), "components")
    schemas = g.get(fld(cs, 1, 0), g.A("Components"), "schemas")
    conv = {i for i in g.trait_fn("ToSchema", "to_schema")}
    for name, b, outs in generators(g):
        bad, n = None, 0
        for o in outs:
            if not (o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 0):
                continue
            for have in (0, 1):
                f = merge_facts(o.facts, {var(cs): have})
                if f is None:
                    continue
                calls = {t for a in f for t in subterms(a) if t.op == "call" and str(t.a[0]).endswith("::add_ref_types")}
                given = []
                for t in calls:
                    if f.get(var(t)) != 0:
                        bad = bad or "code is generated although the schemas are refused"
                    given.append(resolve(t.a[1][1], f))
                if have and not given:
                    bad = bad or "the schemas are not handed over when %s" % cond(o.facts)[:200]
                if len(given) > 1:
                    bad = bad or "the schemas are handed over more than once"
                for s in given:
                    n += have
                    bad = bad or registered(s, schemas, conv, have)
        need(rep, "G20:schemas:" + name, n > 0 and bad is None, "every named schema of the document is handed to the type generator, converted, under its own name", g.where(b), bad or "none is")


def registered(s, schemas, conv, have):
    if s.op == "mapof":
        s = s.a[1]
    items = [] if s.op == "seq" and not s.a[0] else [s] if s.op == "star" else list(s.a[0]) if s.op == "seq" else None
    if items is None:
        return "what is handed over is %s" % show(s)[:250]
    if not have:
        return "without components there are %s" % show(s)[:200] if items else None
    if len(items) != 1 or items[0].op != "star" or items[0].a[0].op != "iter":
        return "what is handed over is %s" % show(s)[:250]
    x = items[0]
    over = x.a[0].a[0]
    while over.op == "call" and last(over) in ("iter", "into_iter"):
        over = over.a[1][0]
    if over is not schemas:
        return "the schemas are those of %s" % show(over)[:200]
    name, val = fld(x.a[1], 0, 0), fld(x.a[1], 0, 1)
    for a in alternatives(x.a[2]):
        it = iters_items(a.ret)
        if len(it) != 1 or it[0].op != "agg" or len(it[0].a[2]) != 2:
            return "when %s a schema is handed over as %s" % (cond(a.facts)[:150], show(a.ret)[:200])
        k, v = it[0].a[2]
        if k is not name:
            return "a schema's name is %s" % show(subst(k, {name: sym("name")}))[:200]
        if not (v.op == "call" and v.a[0] in conv and v.a[1][0] is val):
            return "a schema is handed over as %s" % show(v)[:200]
    return None
