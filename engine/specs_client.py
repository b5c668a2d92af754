"""Specifications of the client runtime properties (C01..C19)."""
from check_base import *
from interp import T
import models

RESP = "reqwest::async_impl::response::Response::"
RT = T("adt", "reqwest::async_impl::response::Response", ())
S = sym("S")
PARAM = lambda n: T("param", 90, n)


def rcall(m, *a):
    return call(RESP + m, *a)


def awaited(x):
    return call("await", x)


class Client(Ctx):
    def __init__(self, facts):
        super().__init__(facts, "progenitor_client")
        self.ERR = self.adt("Error")
        self.RV = self.adt("ResponseValue")
        self.BS = self.adt("ByteStream")
        self.QP = self.adt("QueryParam")
        self.vidx = {v["name"]: i for i, v in enumerate(self.variants(self.ERR))}

    def error(self, name, *fields):
        if name not in self.vidx:
            raise Missing("Error::%s" % name)
        return agg(self.ERR, self.vidx[name], fields)

    # observation of a response wrapper through its public accessors
    def observe(self, st, rv, name, adt=None):
        bid, im = self.method(adt or self.RV, name)
        ty = self.E.ty(self.E.bodies[bid]["locals"][1])
        arg = self.E.newref(st, rv) if ty.a[0] == "ref" else rv
        rs = self.E.run_body(st, bid, (), [arg])
        if len(rs) == 1:
            return self.E.full(rs[0][0], rs[0][1])
        base = st.facts
        return phi([(frozenset((a, v) for a, v in s.facts.items() if a not in base), self.E.full(s, v)) for s, v in rs])

    def wrapper(self, st, rv):
        return tup(self.observe(st, rv, "status"), self.observe(st, rv, "headers"), self.observe(st, rv, "into_inner"))

    def where_of(self, adt, name):
        return self.where(self.method(adt, name)[0])


def is_ok(o):
    r = o.ret
    if r.op == "agg" and r.a[0] == RES:
        return r.a[1] == 0
    k = o.facts.get(var(r))
    return None if k is None else k == 0


def payload(o, i=0):
    r = o.ret
    return fld(r, 0 if i == 0 else 1, 0)


def observed_result(cl):
    """Result<ResponseValue, Error> seen through the wrapper's accessors"""
    def f(o):
        k = is_ok(o)
        if k is None:
            return o.ret
        if k:
            return ok(cl.wrapper(o.st, payload(o)))
        return err(fld(o.ret, 1, 0))
    return f


# ---------------------------------------------------------------------- C01
UNRESERVED = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_.~"
MUST = {i: "control byte 0x%02x" % i for i in list(range(0x20)) + [0x7F]}
MUST.update({ord(c): repr(c) for c in ' "#<>?`{}/%\\'})


def bits(n):
    return {i for i in range(128) if n >> i & 1}


def strip_enc(t):
    """the percent-encoding an output text denotes, or None"""
    if t.op == "pctenc":
        return t
    if t.op == "disp" and t.a[0] == "Display" and t.a[1].op == "pctenc":
        return t.a[1]
    if t.op == "star":
        u = unroll(t, {})
        if u and len(u) == 1:
            return strip_enc(u[0])
    if t.op == "call" and t.a[0] == "convert" and t.a[1][-1].op == "pctenc":
        return t.a[1][-1]
    return None


def c01(cl, rep):
    f = cl.free_fn("encode_path")
    w = cl.where(f)
    s = sym("value")
    outs = cl.run(f, [s])
    rep.ob("C01:returns", bool(outs), "encode_path returns for every argument", w)
    masks = []
    for o in outs:
        r = o.ret
        e = strip_enc(r)
        lit = [a for a, v in o.facts.items() if a.op == "ieq" and a.a[0] is s and v is True]
        if e is None and lit and eqv(lit[0].a[1], r, o.facts) and all(c in UNRESERVED for c in lit[0].a[1].a[0]):
            continue
        if e is None and r is s:
            # unchanged text: only under a predicate that admits bytes needing no escape
            al = [a for a, v in o.facts.items() if a.op == "allbytes" and a.a[0] is s and v is True]
            good = al and not any(b in MUST or b >= 128 for b in al[0].a[1])
            rep.ob("C01:unencoded", good, "text is returned unencoded only when nothing in it needs encoding", w,
                   "returned unchanged when %s" % {show(a): v for a, v in o.facts.items()})
            continue
        if not rep.ob("C01:whole-argument", e is not None and e.a[0] is s, "the result is the percent-encoding of the whole argument, nothing dropped or added", w, "returns %s" % show(r)):
            continue
        if not rep.ob("C01:set-known", e.a[1].op == "int", "the set of encoded bytes is a constant", w, show(e.a[1])):
            continue
        masks.append(bits(e.a[1].a[0]))
    rep.ob("C01:encodes", bool(masks), "some outcome percent-encodes", w)
    for m in masks:
        for b, n in sorted(MUST.items()):
            rep.ob("C01:must-encode:0x%02x" % b, b in m, "%s is percent-encoded in a path segment" % n, w, "byte 0x%02x is passed through unencoded" % b)
        for c in UNRESERVED:
            rep.ob("C01:unreserved:%s" % c, ord(c) not in m, "%r is left alone" % c, w, "%r is percent-encoded" % c)
    # the two texts a URL parser takes as navigation, even when percent-encoded
    for d in (".", ".."):
        for o in cl.run(f, [lstr(d)]):
            r = o.ret
            if r.op == "pctenc" and r.a[0].op == "str" and r.a[1].op == "int":
                m = bits(r.a[1].a[0])
                r = lstr("".join("%%%02X" % ord(ch) if ord(ch) in m else ch for ch in d))
            rep.ob("C01:dot-segment:%s" % d, not (r.op == "str" and r.a[0].lower().replace("%2e", ".") == d),
                   "a value of %r does not become a dot segment" % d, w, "encode_path(%r) is %s, which a URL parser removes together with the segment before it" % (d, show(r)))


# ---------------------------------------------------------------------- C02..C07
SCALARS = ["bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "str"]
OPENERS = {"serialize_seq": "seq", "serialize_tuple": "seq", "serialize_map": "map", "serialize_struct": "struct"}


def scallres(t):
    """is t a result term of a serializer call"""
    return t.op == "call" and isinstance(t.a[0], str) and (t.a[0].startswith("serialize_") or t.a[0] in ("end", "collect_str", "collect_seq", "collect_map", "Serialize::serialize"))


class Query:
    def __init__(self, cl):
        self.cl = cl
        self.E = cl.E
        self.new, self.newim = cl.method(cl.QP, "new")
        self.name, self.value = sym("name"), sym("value")

    def where(self, m=None):
        if m:
            q = [b for k, b in self.E.bodies.items() if b.get("nm") == m and "impl" in b]
            if q:
                return self.cl.where(next(k for k, b in self.E.bodies.items() if b is q[0]))
        t = T("adt", self.cl.QP, (None, T("model", "elem")))
        im, _ = self.cl.trait_impl("serde::ser::Serialize", (t,))
        return self.cl.where(im["items"]["serialize"])

    def run(self, ty, value=None):
        """QueryParam::new(name, &value).serialize(S) for a value of (model) type ty"""
        cl, E = self.cl, self.E
        value = self.value if value is None else value
        st = St()
        out = []
        qt = T("adt", cl.QP, (None, ty))
        rs = E.run_body(st, self.new, (None, ty), [self.name, E.newref(st, value)])
        for s, q in rs:
            out.extend(E.call_trait(s, "serde::ser::Serialize", "serialize", (qt, T("param", 91, "SER")), [E.newref(s, q), S], None, 0, [None, None]))
        return cl.outs(out)

    def direct(self, ty, value=None):
        """the same value handed to S itself"""
        cl, E = self.cl, self.E
        st = St()
        value = self.value if value is None else value
        rs = E.call_trait(st, "serde::ser::Serialize", "serialize", (ty, T("param", 91, "SER")), [E.newref(st, value), S], None, 0, [None, None])
        return cl.outs(rs)


def unify_hints(t):
    """serializer calls compared without their advisory arguments (type names, lengths)"""
    if t.op == "call" and isinstance(t.a[0], str) and t.a[0].startswith("serialize_"):
        nm, a = t.a
        a = tuple(unify_hints(x) for x in a)
        if nm in ("serialize_seq", "serialize_map", "serialize_tuple", "serialize_struct", "serialize_tuple_struct"):
            a = a[:1]
        elif nm in ("serialize_tuple_variant", "serialize_struct_variant", "serialize_newtype_variant", "serialize_unit_variant"):
            a = a[:1] + a[3:4] + a[4:5] * (nm == "serialize_newtype_variant")
        elif nm == "serialize_unit_struct":
            a = a[:1]
        elif nm == "serialize_newtype_struct":
            a = a[:1] + a[2:]
        return call(nm, *a)
    return rebuild(t, unify_hints)


def calls_in(t):
    return [x for x in subterms(t) if scallres(x)]


def emitted(o):
    """(pairs, problem): what a successful outcome emitted on S"""
    r = o.ret
    if r.op == "agg" and r.a[0] == RES and r.a[1] == 0:
        x = r.a[2][0]
        # eta-expanded result
        if x.op == "fld" and x.a[1:] == (0, 0) and o.facts.get(var(x.a[0])) == 0:
            r = x.a[0]
        else:
            return None, "returns %s, which is not the query encoder's own result" % show(r)
    if r.op != "call":
        return None, "returns %s" % show(r)
    nm, a = r.a
    if nm in ("serialize_none", "serialize_unit", "serialize_unit_struct"):
        return ([], None) if a[0] is S else (None, "called on %s" % show(a[0]))
    if nm != "end":
        return None, "returns the result of %s" % show(r)
    steps = []
    x = a[0]
    while x.op == "step":
        steps.append(x)
        x = x.a[1]
    steps.reverse()
    if not (x.op == "fld" and x.a[1:] == (0, 0) and x.a[0].op == "call" and x.a[0].a[0] in OPENERS):
        return None, "the encoder state %s is not one opened on S" % show(x)
    op = x.a[0]
    if op.a[1][0] is not S:
        return None, "opened on %s" % show(op.a[1][0])
    if o.facts.get(var(op)) != 0:
        return None, "the result of %s is not checked" % op.a[0]
    kind = OPENERS[op.a[0]]
    pairs, pend = [], None
    for s in steps:
        nm, prev, args = s.a
        res = call(nm, prev, *args)
        if o.facts.get(var(res)) != 0:
            return None, "the result of %s(%s) is ignored" % (nm, ", ".join(show(y) for y in args))
        if nm == "serialize_element" and kind == "seq":
            v = args[0]
            if not (v.op == "agg" and v.a[0] == "tuple" and len(v.a[2]) == 2):
                return None, "an element that is not a pair: %s" % show(v)
            pairs.append((v.a[2][0], v.a[2][1]))
        elif nm in ("serialize_field", "serialize_entry") and kind in ("struct", "map"):
            pairs.append((args[0], args[1]))
        elif nm == "serialize_key" and kind == "map" and pend is None:
            pend = args[0]
        elif nm == "serialize_value" and kind == "map" and pend is not None:
            pairs.append((pend, args[0]))
            pend = None
        else:
            return None, "unexpected step %s" % nm
    if pend is not None:
        return None, "a key without a value"
    return pairs, None


def failing(o):
    return [a.a[0] for a, v in o.facts.items() if a.op == "var" and v == 1 and scallres(a.a[0])]


def err_of(o):
    """the serializer call whose error the outcome returns, or None"""
    r = o.ret
    if r.op == "agg" and r.a[0] == RES and r.a[1] == 1:
        e = r.a[2][0]
        if e.op == "fld" and e.a[1:] == (1, 0):
            return e.a[0]
        return False
    if o.facts.get(var(r)) == 1:
        return r
    return None


def success_like(o):
    """outcomes not already decided to be an error"""
    return err_of(o) is None and not failing(o)


def expect_pairs(q, rep, key, outs, want, desc, where):
    """all non-error outcomes emit exactly the pairs; errors are errors of S"""
    bad = None
    n = 0
    for o in outs:
        if failing(o):
            continue  # C07
        e = err_of(o)
        if e is False:
            bad = bad or "fails on its own with %s although no serializer call failed" % show(o.ret)
            continue
        p, why = emitted(o)
        n += 1
        if p is None:
            bad = bad or why
            continue
        if len(p) != len(want):
            bad = bad or "emits %d pairs instead of %d: %s" % (len(p), len(want), [(show(a), show(b)) for a, b in p])
            continue
        for (a, b), (x, y) in zip(p, want):
            if not (eqv(x, a, o.facts) and eqv_value(y, b, o.facts)):
                bad = bad or "emits %s=%s instead of %s=%s (when %s)" % (show(a), show(b), show(x), show(y), {show(k): v for k, v in o.facts.items()})
    if n == 0 and bad is None:
        bad = "no outcome succeeds"
    rep.ob(key, bad is None, desc, where, bad or "%d successful outcomes" % n)
    return bad is None


def eqv_value(want, got, facts):
    """same text: the value itself, or its display text"""
    if eqv(want, got, facts):
        return True
    if got.op == "disp" and got.a[0] == "Display" and got.a[2] == 0 and want.op == "sym" and got.a[1] is want:
        return "float" not in want.a
    if facts.get(want) is not None and got.op == "str" and isinstance(facts[want], bool):
        return got.a[0] == ("true" if facts[want] else "false")
    return False


def c02(cl, rep):
    q = Query(cl)
    for k in SCALARS:
        v = sym("value", "float") if k.startswith("f") else sym("value")
        outs = q.run(T("model", "scalar", k), v)
        expect_pairs(q, rep, "C02:" + k, outs, [(q.name, v)], "a %s value is one pair of the parameter's name and the value" % k, q.where("serialize_" + k))
    outs = q.run(T("model", "collect_str"))
    expect_pairs(q, rep, "C02:display", outs, [(q.name, mk("disp", "Display", q.value, 0))], "a value serialised through its display text is one pair with that text", q.where("collect_str"))
    outs = q.run(T("model", "hr"))
    for k in ("i128", "u128"):
        if overrides(q, "serialize_" + k):
            expect_pairs(q, rep, "C02:" + k, q.run(T("model", "scalar", k), sym("value")), [(q.name, sym("value"))], "a %s value is one pair of the parameter's name and the value" % k, q.where("serialize_" + k))
    expect_pairs(q, rep, "C02:human-readable", outs, [(q.name, mk("disp", "Display", q.value, 0))], "the human-readable encoding of a value is the one sent", q.where("is_human_readable"))


def overrides(q, nm):
    """does the local serializer define a method serde provides"""
    return any(im["trait"] == "serde::ser::Serializer" and nm in im["items"] for im in q.E.impls)


def seq_induction(q, rep, key, ty0, where):
    """one arbitrary element in any reachable state of the sequence serializer"""
    cl, E = q.cl, q.E
    st = St()
    qt = T("adt", cl.QP, (None, T("model", "seqopen")))
    bad = None
    n = 0
    rs = E.run_body(st, q.new, (None, T("model", "seqopen")), [q.name, E.newref(st, q.value)])
    res = []
    for s, p in rs:
        res.extend(E.call_trait(s, "serde::ser::Serialize", "serialize", (qt, T("param", 91, "SER")), [E.newref(s, p), S], None, 0, [None, None]))
    states = []
    for o in [x for x in res]:
        s, v = o
        for s2, k in models.variants(E, s, v, RES, 2):
            if k == 0:
                states.append((s2, E.simp(s2, fld(E.deref(s2, v), 0, 0))))
    if not states:
        rep.ob(key, False, "opening a sequence succeeds when the encoder does", where, "no successful outcome")
        return
    cty = E.normalise(T("alias", "serde::ser::Serializer::SerializeSeq", "serde::ser::Serializer", "SerializeSeq", (q_ser_ty(q),)))
    for s0, v in states:
        E._lid += 1
        lid = E._lid
        cur = E.full(s0, v)
        lvs = {}
        for _ in range(6):
            nxt = []
            st1 = s0.copy()
            loc = E.alloc(st1, cur)
            el = sym("elem")
            rs = E.call_trait(st1, "serde::ser::SerializeSeq", "serialize_element", (cty, T("model", "elem")), [mk("ref", loc, ()), E.newref(st1, el)], None, 0, [T("ref", cty, True), None])
            outs = []
            for s, r in rs:
                for s2, k in models.variants(E, s, r, RES, 2):
                    outs.append((s2, k, E.full(s2, r), E.full(s2, s2.store[loc])))
            g = cur
            for s2, k, r, w in outs:
                if k == 0:
                    g = E.gen(g, w, lid, ("Q",), lvs)
            if g is cur:
                break
            cur = g
        else:
            bad = bad or "the state of the sequence serializer does not stabilise"
        # emission of one element in the general state
        inner = [x for x in subterms(cur) if x.op == "lv"]
        for s2, k, r, w in outs:
            facts = {E.full(s2, a): x for a, x in s2.facts.items()}
            sts = [x for x in subterms(w) if x.op == "step"]
            fails = [a.a[0] for a, x in facts.items() if a.op == "var" and x == 1 and scallres(a.a[0]) and a.a[0].a[0].startswith("serialize_element")]
            if k == 1:
                if not fails:
                    bad = bad or "an element fails although the encoder did not"
                elif not eqv(err(fld(fails[0], 1, 0)), r, facts):
                    bad = bad or "an encoder failure on an element is reported as %s" % show(r)
                continue
            if fails:
                bad = bad or "an encoder failure on an element is swallowed"
                continue
            n += 1
            if len(sts) != 1:
                bad = bad or "an element emits %d pairs" % len(sts)
                continue
            stp = sts[0]
            want = tup(q.name, el)
            if not (stp.a[0] == "serialize_element" and len(stp.a[2]) == 1 and eqv(want, stp.a[2][0], facts)):
                bad = bad or "an element is emitted as %s" % show(stp.a[2])
            if facts.get(var(call(stp.a[0], stp.a[1], *stp.a[2]))) != 0:
                bad = bad or "the result of emitting an element is not checked"
            if stp.a[1] not in inner:
                bad = bad or "an element is emitted on %s" % show(stp.a[1])
        # ending
        st1 = s0.copy()
        outs = []
        for s, r in E.call_trait(st1, "serde::ser::SerializeSeq", "end", (cty,), [cur], None, 0, [None]):
            r = E.full(s, r)
            facts = {E.full(s, a): x for a, x in s.facts.items()}
            ends = [x for x in inner if eqv(call("end", x), r, facts)]
            if r.op == "agg" and not ends:
                ends = [x for x in inner if eqv(r, call("end", x), facts)]
            n += 1
            if not ends:
                bad = bad or "ending a sequence returns %s" % show(r)
    rep.ob(key, bad is None and n > 0, "in every reachable state of the sequence serializer, an element emits exactly (name, element) and the end adds nothing", where, bad or "%d outcomes" % n)


def q_ser_ty(q):
    """the type of the serializer QueryParam hands to its value"""
    E, cl = q.E, q.cl
    # the local Serializer implementation
    c = [im for im in E.impls if im["trait"] == "serde::ser::Serializer"]
    if len(c) != 1:
        raise Missing("local Serializer implementation (%d found)" % len(c))
    return c[0]["self"]


def c03(cl, rep):
    q = Query(cl)
    w = q.where("serialize_element")
    for n in range(4):
        outs = q.run(T("model", "seq", n))
        expect_pairs(q, rep, "C03:len%d" % n, outs, [(q.name, sym("elem", i)) for i in range(n)], "a list of %d elements is %d pairs in order" % (n, n), w)
    if overrides(q, "collect_seq"):
        for n in range(4):
            expect_pairs(q, rep, "C03:collect:%d" % n, q.run(T("model", "collect_seq", n)), [(q.name, sym("elem", i)) for i in range(n)], "a list collected from %d elements is %d pairs in order" % (n, n), q.where("collect_seq"))
    seq_induction(q, rep, "C03:inductive", T("model", "seqopen"), w)


def c04(cl, rep):
    q = Query(cl)
    for k in ("none", "unit", "unit_struct"):
        outs = q.run(T("model", k))
        expect_pairs(q, rep, "C04:" + k, outs, [], "a %s value adds no pair" % k, q.where("serialize_" + k))
    w = q.where("serialize_some")
    inner = [T("model", "elem"), T("model", "seq", 2), T("model", "none"), T("model", "unit_variant"), T("model", "struct", 2), T("model", "scalar", "str"), T("model", "scalar", "bool"), T("model", "map", 1, "entry"),
             T("model", "some", T("model", "scalar", "u32"))]
    for ty in inner:
        sub_ = mk("sub", q.value)
        a = q.run(T("model", "some", ty))
        b = q.run(ty, sub_)
        same_outcomes(rep, "C04:some:" + "-".join(str(x) if not isinstance(x, Term) else "some" for x in ty.a[1:]), b, a, "a present optional value is sent exactly as the value itself (%s)" % ty.a[1], w)
    # the standard Option
    so = q.run(T("adt", OPT, (T("model", "elem"),)), some(mk("sub", q.value)))
    same_outcomes(rep, "C04:Option-Some", q.run(T("model", "elem"), mk("sub", q.value)), so, "Some(value) is sent exactly as the value itself", w)
    expect_pairs(q, rep, "C04:Option-None", q.run(T("adt", OPT, (T("model", "elem"),)), NONE), [], "None adds no pair", q.where("serialize_none"))


def same_outcomes(rep, key, want, got, desc, where, norm=unify_hints, extra_ok=None):
    """two families of outcomes agree"""
    bad = None
    n = 0
    W = [({norm(a): v for a, v in o.facts.items()}, norm(o.ret)) for o in want]
    G = [({norm(a): v for a, v in o.facts.items()}, norm(o.ret)) for o in got]
    for fg, rg in G:
        hit = False
        for fw, rw in W:
            f = merge_facts(fw, fg)
            if f is None:
                continue
            hit = True
            n += 1
            if not eqv(rw, rg, f):
                bad = bad or "when %s: expected %s, found %s" % ({show(a): v for a, v in f.items()}, show(rw), show(rg))
        if not hit:
            bad = bad or "unexpected outcome %s when %s" % (show(rg), {show(a): v for a, v in fg.items()})
    for fw, rw in W:
        if not any(merge_facts(fw, fg) is not None for fg, _ in G):
            bad = bad or "no outcome when %s" % {show(a): v for a, v in fw.items()}
    rep.ob(key, bad is None and n > 0, desc, where, bad or "%d outcome pairs" % n)


def c05(cl, rep):
    q = Query(cl)
    expect_pairs(q, rep, "C05:unit-variant", q.run(T("model", "unit_variant")), [(q.name, sym("variant"))], "a fieldless variant is one pair of the parameter's name and the variant's name", q.where("serialize_unit_variant"))
    for n, ty in (("opaque", T("model", "elem")), ("str", T("model", "scalar", "str")), ("option", T("model", "some", T("model", "scalar", "u8")))):
        expect_pairs(q, rep, "C05:newtype-variant:" + n, q.run(T("model", "newtype_variant", ty)), [(sym("variant"), mk("sub", q.value))], "a variant with one payload is one pair of the variant's name and the payload", q.where("serialize_newtype_variant"))


def c06(cl, rep):
    q = Query(cl)
    kinds = []
    for n in (0, 1, 2, 3):
        kinds += [("struct", n), ("map", n, "entry"), ("map", n, "kv"), ("tuple", n), ("tuple_struct", n), ("struct_variant", n), ("tuple_variant", n)]
    for k in kinds:
        ty = T("model", *k)
        same_outcomes(rep, "C06:" + "-".join(map(str, k)), q.direct(ty), q.run(ty), "a %s value of %d entries is handed to the query encoder unchanged" % (k[0], k[1]), q.where("serialize_" + k[0]))
    if overrides(q, "collect_map"):
        for n in range(4):
            same_outcomes(rep, "C06:collect:%d" % n, q.direct(T("model", "map", n, "entry")), q.run(T("model", "collect_map", n)), "a map collected from %d entries is handed to the query encoder unchanged" % n, q.where("collect_map"))
    ty = T("model", "scalar", "bytes")
    same_outcomes(rep, "C06:bytes", q.direct(ty), q.run(ty), "a byte string is handed to the query encoder unchanged", q.where("serialize_bytes"))
    ty = T("model", "newtype_struct", T("model", "elem"))
    a = q.run(ty)
    tr = q.run(T("model", "elem"), mk("sub", q.value))
    direct = q.direct(ty)
    tmp = Report("C06")
    same_outcomes(tmp, "x", direct, a, "", "")
    if tmp.failed:
        same_outcomes(rep, "C06:newtype-struct", tr, a, "a newtype value is handed on unchanged or sent as its inner value", q.where("serialize_newtype_struct"))
    else:
        rep.ob("C06:newtype-struct", True, "a newtype value is handed on unchanged or sent as its inner value", q.where("serialize_newtype_struct"))
    # the compound states handed out are the encoder's own, so later steps are too
    w = q.where("serialize_struct")
    for k in ("struct", "map", "tuple", "tuple_struct", "struct_variant", "tuple_variant"):
        assoc = {"struct": "SerializeStruct", "map": "SerializeMap", "tuple": "SerializeTuple", "tuple_struct": "SerializeTupleStruct", "struct_variant": "SerializeStructVariant", "tuple_variant": "SerializeTupleVariant"}[k]
        t = q.E.normalise(T("alias", "serde::ser::Serializer::" + assoc, "serde::ser::Serializer", assoc, (q_ser_ty(q),)))
        own = t.a[0] == "alias" and t.a[3] == assoc
        if own:
            rep.ob("C06:state:" + k, True, "the state of a %s in progress is the query encoder's own" % k, w)
        else:
            compound_induction(q, rep, "C06:state:" + k, k, t, w)


def compound_induction(q, rep, key, kind, cty, where):
    """a wrapped compound state forwards every step unchanged, in every reachable state"""
    E, cl = q.E, q.cl
    steps = {"struct": [("serialize_field", [sym("key"), "v"])], "map": [("serialize_key", ["v"]), ("serialize_value", ["v"]), ("serialize_entry", ["k", "v"])], "tuple": [("serialize_element", ["v"])],
             "tuple_struct": [("serialize_field", ["v"])], "struct_variant": [("serialize_field", [sym("key"), "v"])], "tuple_variant": [("serialize_field", ["v"])]}[kind]
    tr = "serde::ser::Serialize" + "".join(x.capitalize() for x in kind.split("_"))
    outs = q.run(T("model", kind, 0) if kind != "map" else T("model", "map", 0, "entry"))
    bad = None
    # find the opened state by running only the opener
    st = St()
    rs = E.run_body(st, q.new, (None, T("model", "open_" + kind)), [q.name, E.newref(st, q.value)])
    states = []
    for s, p in rs:
        for s1, v in E.call_trait(s, "serde::ser::Serialize", "serialize", (T("adt", cl.QP, (None, T("model", "open_" + kind))), T("param", 91, "SER")), [E.newref(s, p), S], None, 0, [None, None]):
            for s2, k in models.variants(E, s1, v, RES, 2):
                if k == 0:
                    states.append((s2, E.full(s2, fld(E.deref(s2, v), 0, 0))))
    n = 0
    for s0, v in states:
        E._lid += 1
        lid = E._lid
        cur = v
        for it in range(8):
            g = cur
            allouts = []
            for nm, params in steps:
                st1 = s0.copy()
                loc = E.alloc(st1, cur)
                args = []
                plain = []
                for p in params:
                    x = sym(p) if isinstance(p, str) else p
                    plain.append(x)
                    args.append(E.newref(st1, x) if isinstance(p, str) else x)
                tys = tuple(T("model", "elem") for p in params if isinstance(p, str))
                for s, r in E.call_trait(st1, tr, nm, (cty,) + tys, [mk("ref", loc, ())] + args, None, 0, [T("ref", cty, True)] + [None] * len(args)):
                    for s2, k in models.variants(E, s, r, RES, 2):
                        w = E.full(s2, s2.store[loc])
                        allouts.append((nm, plain, s2, k, E.full(s2, r), w))
                        if k == 0:
                            g = E.gen(g, w, lid, ("Q",), {})
            if g is cur:
                break
            cur = g
        inner = [x for x in subterms(cur) if x.op == "lv"]
        for nm, plain, s2, k, r, w in allouts:
            if k == 0:
                n += 1
                sts = [x for x in subterms(w) if x.op == "step"]
                if not any(x.a[0] == nm and x.a[1] in inner and x.a[2] == tuple(plain) for x in sts) or len(sts) != 1:
                    bad = bad or "%s is not forwarded unchanged: %s" % (nm, show(w))
    rep.ob(key, bad is None and n > 0, "every step of a %s in progress is forwarded to the query encoder unchanged" % kind, where, bad or "%d outcomes" % n)


ALLKINDS = [("scalar", k) for k in SCALARS + ["bytes"]] + [("none",), ("unit",), ("unit_struct",), ("unit_variant",), ("collect_str",), ("hr",), ("elem",), ("seq", 0), ("seq", 1), ("seq", 3),
            ("tuple", 2), ("tuple_struct", 2), ("tuple_variant", 2), ("map", 2, "entry"), ("map", 2, "kv"), ("struct", 2), ("struct_variant", 2)]


def c07(cl, rep):
    q = Query(cl)
    kinds = [T("model", *k) for k in ALLKINDS]
    kinds += [T("model", "some", T("model", "scalar", "str")), T("model", "some", T("model", "elem")), T("model", "some", T("model", "seq", 2)), T("model", "newtype_struct", T("model", "elem")), T("model", "newtype_variant", T("model", "elem"))]
    for ty in kinds:
        bad = None
        nfail = 0
        nm = "-".join(str(x) if not isinstance(x, Term) else "-".join(map(str, x.a[1:])) for x in ty.a[1:])
        outs = q.run(ty)
        for o in outs:
            fails = failing(o)
            if fails:
                nfail += 1
                e = err_of(o)
                if e is None:
                    bad = bad or "the failure of %s is swallowed: returns %s" % (show(fails[0])[:200], show(o.ret)[:200])
                elif e is False or e not in fails:
                    bad = bad or "the failure of %s is replaced by %s" % (show(fails[0])[:200], show(o.ret)[:200])
                continue
            # no decided failure: whatever is still undecided must be the returned result itself
            r = o.ret
            e = err_of(o)
            if e is False:
                continue
            if r.op == "agg" and r.a[0] == RES and r.a[1] == 0:
                x = r.a[2][0]
                if not (x.op == "fld" and x.a[1:] == (0, 0) and scallres(x.a[0]) and o.facts.get(var(x.a[0])) == 0):
                    bad = bad or "reports success with %s" % show(r)
                r = x
            for s in subterms(r):
                if s.op == "step" and o.facts.get(var(call(s.a[0], s.a[1], *s.a[2]))) is None:
                    bad = bad or "the result of %s is never looked at" % s.a[0]
        if ty.a[1] == "elem" or ty.a[1] == "some":
            pass
        rep.ob("C07:" + nm, bad is None and bool(outs), "every failure while serialising a %s value is reported" % nm, q.where("serialize_" + str(ty.a[2] if ty.a[1] == "scalar" else ty.a[1])), bad or "%d outcomes, %d of them failures" % (len(outs), nfail))


# ---------------------------------------------------------------------- C08..C14
def async_run(cl, adt, name, args, targs=()):
    bid, im = cl.method(adt, name)
    return cl.where(bid), cl.run_async(bid, args, targs)


def c08(cl, rep):
    resp = sym("resp")
    w, outs = async_run(cl, cl.RV, "from_response", [resp])
    body = awaited(rcall("bytes", resp))

    def spec(ask):
        if ask(var(body), (0, 1)) == 1:
            return err(cl.error("ResponseBodyError", fld(body, 1, 0)))
        b = fld(body, 0, 0)
        dec = call("serde_json::de::from_slice", b)
        if ask(var(dec), (0, 1)) == 1:
            return err(cl.error("InvalidResponsePayload", b, fld(dec, 1, 0)))
        return ok(fld(dec, 0, 0))

    def obs(o):
        k = is_ok(o)
        if k is None:
            return o.ret
        return ok(cl.observe(o.st, payload(o), "into_inner")) if k else err(fld(o.ret, 1, 0))

    cl.compare(rep, "C08:from_response", w, outs, spec, "the value is decoded from the whole body; unreadable and undecodable bodies are the two matching errors with everything they carry", obs)


def wrapper_spec(cl, resp, value):
    return tup(rcall("status", resp), rcall("headers", resp), value)


def c09(cl, rep):
    resp = sym("resp")
    body = awaited(rcall("bytes", resp))
    dec = call("serde_json::de::from_slice", fld(body, 0, 0))
    anyv = mk("any")
    # decoded / upgraded: whenever a wrapper is returned, it reports this response
    for name in ("from_response", "upgrade"):
        w, outs = async_run(cl, cl.RV, name, [resp])
        bad, n = None, 0
        for o in outs:
            if is_ok(o):
                n += 1
                st_, hd, _ = cl.wrapper(o.st, payload(o)).a[2]
                if not eqv(rcall("status", resp), st_, o.facts):
                    bad = bad or "reports status %s" % show(st_)
                if not eqv(rcall("headers", resp), hd, o.facts):
                    bad = bad or "reports headers %s" % show(hd)
            elif is_ok(o) is None:
                bad = bad or "returns %s" % show(o.ret)
        rep.ob("C09:" + name, bad is None and n > 0, "%s reports the response's own status and headers" % name, w, bad or "%d outcomes" % n)
    bid, _ = cl.method(cl.RV, "upgrade")
    for name in ("stream", "empty"):
        bid, _ = cl.method(cl.RV, name)
        w = cl.where(bid)
        outs = cl.run(bid, [resp])
        bad = None
        for o in outs:
            st_, hd, inner = cl.wrapper(o.st, o.ret).a[2]
            if not eqv(rcall("status", resp), st_, o.facts):
                bad = bad or "reports status %s" % show(st_)
            if not eqv(rcall("headers", resp), hd, o.facts):
                bad = bad or "reports headers %s" % show(hd)
            if name == "empty" and not eqv(UNIT, inner, o.facts):
                bad = bad or "holds %s" % show(inner)
        rep.ob("C09:" + name, bad is None and bool(outs), "%s reports the response's own status and headers" % name, w, bad or "%d outcomes" % len(outs))
    # new / accessors
    bid, _ = cl.method(cl.RV, "new")
    i, s, h = sym("inner"), sym("status"), sym("headers")
    outs = cl.run(bid, [i, s, h])
    bad = None
    E = cl.E
    for o in outs:
        if cl.wrapper(o.st, o.ret) is not tup(s, h, i):
            bad = bad or "new(inner, status, headers) reports %s" % show(cl.wrapper(o.st, o.ret))
        t = T("adt", cl.RV, (T("param", 0, "T"),))
        for tr, m in (("core::ops::deref::Deref", "deref"), ("core::ops::deref::DerefMut", "deref_mut")):
            r = E.newref(o.st, o.ret)
            for s2, v in E.call_trait(o.st.copy(), tr, m, (t,), [r], None, 0, [None]):
                if E.full(s2, v) is not i:
                    bad = bad or "%s gives %s" % (m, show(E.full(s2, v)))
        for im in E.impls:
            if im["trait"] == "core::convert::AsRef" and im["self"].a[0] == "adt" and im["self"].a[1] == cl.RV:
                for s2, v in E.run_body(o.st, im["items"]["as_ref"], (), [E.newref(o.st, o.ret)]):
                    if E.full(s2, v) is not i:
                        bad = bad or "as_ref gives %s" % show(E.full(s2, v))
        # a change made through deref_mut is visible, and leaves status and headers
        st1 = o.st.copy()
        r = E.newref(st1, o.ret)
        for s2, v in E.call_trait(st1, "core::ops::deref::DerefMut", "deref_mut", (t,), [r], None, 0, [T("ref", t, True)]):
            if v.op == "ref":
                models.store_through(E, s2, v, sym("changed"))
                got = cl.wrapper(s2, E.full(s2, r))
                if got is not tup(s, h, sym("changed")):
                    bad = bad or "after writing through deref_mut the wrapper reports %s" % show(got)
    rep.ob("C09:new-and-accessors", bad is None and bool(outs), "a wrapper reports exactly the value, status and headers it was built with", cl.where(bid), bad or "%d outcomes" % len(outs))
    # map
    bid, _ = cl.method(cl.RV, "map")
    rv, f = sym("rv"), sym("f")
    outs = cl.run(bid, [rv, f])
    base = cl.wrapper(St(), rv)
    bad = None
    for o in outs:
        if not is_ok(o):
            bad = bad or "map fails: %s" % show(o.ret)
            continue
        got = cl.wrapper(o.st, payload(o))
        want = tup(base.a[2][0], base.a[2][1], call("apply", f, base.a[2][2]))
        if not eqv(want, got, o.facts):
            bad = bad or "map gives %s instead of %s" % (show(got), show(want))
    rep.ob("C09:map", bad is None and bool(outs), "map changes only the value, by the supplied function applied once", cl.where(bid), bad or "%d outcomes" % len(outs))


def c10(cl, rep):
    resp = sym("resp")
    w, outs = async_run(cl, cl.RV, "upgrade", [resp])
    up = awaited(rcall("upgrade", resp))
    is101 = mk("ieq", call("StatusCode::as_u16", rcall("status", resp)), lint(101))

    def spec(ask):
        if not ask(is101):
            return err(cl.error("UnexpectedResponse", resp))
        if ask(var(up), (0, 1)) == 1:
            return err(cl.error("InvalidUpgrade", fld(up, 1, 0)))
        return ok(fld(up, 0, 0))

    def obs(o):
        k = is_ok(o)
        if k is None:
            return o.ret
        return ok(cl.observe(o.st, payload(o), "into_inner")) if k else err(fld(o.ret, 1, 0))

    cl.compare(rep, "C10:upgrade", w, outs, spec, "upgraded exactly on status 101; otherwise the whole response, or the upgrade failure with its cause", obs)


def c11(cl, rep):
    E = cl.E
    resp = sym("resp")
    bid, _ = cl.method(cl.RV, "stream")
    outs = cl.run(bid, [resp])
    want = rcall("bytes_stream", resp)
    bad = None
    n = 0
    bt = T("adt", cl.BS, ())
    for o in outs:
        views = {}
        s = o.st
        views["into_inner_stream"] = cl.observe(s, o.ret, "into_inner_stream")
        b = cl.observe(s, o.ret, "into_inner")
        views["into_inner().into_inner()"] = cl.observe(s, b, "into_inner", cl.BS)
        for tr, m in (("core::ops::deref::Deref", "deref"), ("core::ops::deref::DerefMut", "deref_mut")):
            r = E.newref(s, b)
            for s2, v in E.call_trait(s.copy(), tr, m, (bt,), [r], None, 0, [None]):
                views["into_inner() " + m] = E.full(s2, v)
        for k, v in views.items():
            n += 1
            if not eqv(want, v, o.facts):
                bad = bad or "%s yields %s instead of the response's byte stream" % (k, show(v))
    rep.ob("C11:stream", bad is None and n > 0, "every way to the inner stream of a streaming response is that response's own byte stream", cl.where(bid), bad or "%d views" % n)
    bid, _ = cl.method(cl.BS, "new")
    x = sym("stream")
    bad = None
    n = 0
    for o in cl.run(bid, [x]):
        n += 1
        v = cl.observe(o.st, o.ret, "into_inner", cl.BS)
        if not eqv(x, v, o.facts):
            bad = bad or "into_inner of new(stream) is %s" % show(v)
        for tr, m in (("core::ops::deref::Deref", "deref"), ("core::ops::deref::DerefMut", "deref_mut")):
            r = E.newref(o.st, o.ret)
            for s2, v in E.call_trait(o.st.copy(), tr, m, (bt,), [r], None, 0, [None]):
                if not eqv(x, E.full(s2, v), o.facts):
                    bad = bad or "%s of new(stream) is %s" % (m, show(E.full(s2, v)))
    rep.ob("C11:bytestream", bad is None and n > 0, "a byte stream wrapper gives access to exactly the stream it was built with", cl.where(bid), bad or "")
    # a Stream implementation on the wrapper, if there is one, would be another way to the chunks
    own = [im for im in E.impls if im["trait"] == "futures_core::stream::Stream"]
    for im in own:
        nm = im["items"].get("poll_next")
        outs = cl.run(nm, [sym("self"), sym("cx")]) if nm else []
        good = outs and all(o.ret.op == "call" and o.ret.a[0].endswith("poll_next") and any(contains(x, lambda t: t is sym("self")) for x in o.ret.a[1]) for o in outs)
        rep.ob("C11:poll_next", good, "polling the wrapper polls the inner stream and passes its answer on", cl.where(nm) if nm else "", "%s" % [show(o.ret) for o in outs])


def c12(cl, rep):
    bid, _ = cl.method(cl.RV, "content_length")
    rv = sym("rv")
    outs = cl.run(bid, [rv])
    headers = cl.observe(St(), rv, "headers")
    get = call("http::header::map::HeaderMap::get", headers, mk("hname", "content-length"))
    txt = call("http::header::value::HeaderValue::to_str", fld(get, 1, 0))
    # no text outside visible ASCII is a number, so reading the value as UTF-8 instead is the same
    utf = call("core::str::converts::from_utf8", call("http::header::value::HeaderValue::as_bytes", fld(get, 1, 0)))
    if any(var(utf) in o.facts for o in outs):
        txt = utf
    num = call("parse", mk("tyname", T("prim", "u64")), fld(txt, 0, 0))

    def spec(ask):
        if ask(var(get), (0, 1)) == 0:
            return NONE
        if ask(var(txt), (0, 1)) == 1:
            return NONE
        if ask(var(num), (0, 1)) == 1:
            return NONE
        return some(fld(num, 0, 0))

    cl.compare(rep, "C12:content_length", cl.where(bid), outs, spec, "the parsed Content-Length header, or nothing")


FIELDS = {"InvalidRequest": ["text"], "CommunicationError": ["cause"], "InvalidUpgrade": ["cause"], "ErrorResponse": ["rv"], "ResponseBodyError": ["cause"],
          "InvalidResponsePayload": ["bytes", "cause"], "UnexpectedResponse": ["resp"], "PreHookError": ["text"], "PostHookError": ["text"]}


def variants_with_fields(cl):
    out = []
    for v in cl.variants(cl.ERR):
        fs = FIELDS.get(v["name"])
        if fs is None or len(fs) != len(v["fields"]):
            raise Missing("the specification does not know Error::%s with %d fields" % (v["name"], len(v["fields"])))
        out.append((v["name"], [sym(f) for f in fs]))
    return out


def c13(cl, rep):
    bid, _ = cl.method(cl.ERR, "status")
    w = cl.where(bid)
    E = cl.E
    for name, fs in variants_with_fields(cl):
        st = St()
        outs = cl.outs(E.run_body(st, bid, (), [E.newref(st, cl.error(name, *fs))]))
        if name == "ErrorResponse":
            want = some(cl.observe(St(), fs[0], "status"))
        elif name == "UnexpectedResponse":
            want = some(rcall("status", fs[0]))
        elif name in ("CommunicationError", "InvalidUpgrade", "ResponseBodyError"):
            want = call("reqwest::error::Error::status", fs[0])
        else:
            want = NONE

        def spec(ask, want=want):
            if want.op == "call":
                return some(fld(want, 1, 0)) if ask(var(want), (0, 1)) == 1 else NONE
            return want
        cl.compare(rep, "C13:" + name, w, outs, spec, "status() of %s is the status it carries, if any" % name)


def c14(cl, rep):
    bid, _ = cl.method(cl.ERR, "into_untyped")
    w = cl.where(bid)
    for name, fs in variants_with_fields(cl):
        outs = cl.run(bid, [cl.error(name, *fs)])
        bad = None
        for o in outs:
            r = o.ret
            if not (r.op == "agg" and r.a[0] == cl.ERR and r.a[1] == cl.vidx[name]):
                bad = bad or "becomes %s" % show(r)
                continue
            if name == "ErrorResponse":
                base = cl.wrapper(St(), fs[0])
                got = cl.wrapper(o.st, r.a[2][0])
                if not eqv(tup(base.a[2][0], base.a[2][1], UNIT), got, o.facts):
                    bad = bad or "status, headers, value become %s" % show(got)
            elif not all(eqv(x, y, o.facts) for x, y in zip(fs, r.a[2])):
                bad = bad or "becomes %s" % show(r)
        rep.ob("C14:" + name, bad is None and bool(outs), "into_untyped keeps a %s and its data" % name, w, bad or "%d outcomes" % len(outs))


# ---------------------------------------------------------------------- C15 / C16
FMT = sym("fmt")
ALT = call("alternate", FMT)


def run_fmt(cl, trait, selfty, value, alternate=None):
    E = cl.E
    st = St()
    f = E.alloc(st, FMT)
    if alternate is not None:
        st.facts[ALT] = alternate
    rs = E.call_trait(st, trait, "fmt", (selfty,), [E.newref(st, value), mk("ref", f, ())], None, 0, [None, None])
    outs = cl.outs(rs)
    for o in outs:
        o.extra = E.full(o.st, o.st.store[f])
    return outs


def written(t):
    ps = pieces(t)
    if not ps or ps[0] is not FMT:
        return None
    return cat(*ps[1:])


def failed_write(o):
    return [a.a[0] for a, v in o.facts.items() if a.op == "var" and v == 1 and a.a[0].op == "call" and a.a[0].a[0] == "fmt_write"]


def fmt_ok(o):
    r = o.ret
    return r.op == "agg" and r.a[0] == RES and r.a[1] == 0


def error_impl(cl, trait, e):
    t = T("adt", cl.ERR, (e,))
    im, _ = cl.trait_impl(trait, (t,))
    return t, cl.where(im["items"].get("fmt") or im["items"].get("source") or im["id"])


def shows(piece, v):
    """does the text piece show value v (display or debug)"""
    if piece is v:
        return True
    if piece.op in ("disp", "dispf") and piece.a[1] is v:
        o = piece.a[2] if len(piece.a) > 2 else 0
        return not (isinstance(o, tuple) and len(o) > 2 and o[2])  # with a precision, only a prefix is shown
    return False


def walk_pieces(t):
    for p in pieces(t):
        yield p
        if p.op == "phi":
            for _, x in p.a[0]:
                yield from walk_pieces(x)


def c15(cl, rep):
    E = cl.E
    TE = T("param", 0, "E")
    labels = {}
    for label, e in (("typed", TE), ("stream", T("adt", cl.BS, ()))):
        t, w = error_impl(cl, "core::fmt::Display", e)
        td, wd = error_impl(cl, "core::fmt::Debug", e)
        for name, fs in variants_with_fields(cl):
            val = cl.error(name, *fs)
            key = "C15:%s:%s" % (label, name)
            outs = run_fmt(cl, "core::fmt::Display", t, val, False)
            bad = None
            n = 0
            need = list(fs)
            if name == "ErrorResponse":
                st_, hd, inner = cl.wrapper(St(), fs[0]).a[2]
                need = [st_, hd] + ([inner] if label == "typed" else [])
            for o in outs:
                fw = failed_write(o)
                if fw:
                    if fmt_ok(o) or not (o.ret.op == "agg" and o.ret.a[1] == 1):
                        bad = bad or "a failure to write is not reported"
                    continue
                if not fmt_ok(o):
                    bad = bad or "returns %s although every write succeeded" % show(o.ret)
                    continue
                n += 1
                tx = written(o.extra)
                if tx is None:
                    bad = bad or "the output is %s" % show(o.extra)
                    continue
                ps = pieces(tx)
                if not ps or ps[0].op != "str" or not ps[0].a[0].strip():
                    bad = bad or "the text does not start by naming the kind: %s" % show(tx)
                else:
                    labels.setdefault((label, name), ps[0].a[0])
                for v in need:
                    if not any(shows(p, v) for p in ps):
                        bad = bad or "the text %s does not show %s" % (show(tx), show(v))
                if name == "ErrorResponse" and label == "stream":
                    if contains(tx, lambda x: x is inner_of(cl, fs[0])):
                        bad = bad or "formatting looks at the stream"
            rep.ob(key, bad is None and n > 0, "the text of %s (%s body) names its kind and shows all it carries; write failures are reported" % (name, label), w, bad or "%d outcomes" % len(outs))
            # formatting must not touch the error
            for alt in (False, True):
                a = run_fmt(cl, "core::fmt::Display", t, val, alt)
                b = run_fmt(cl, "core::fmt::Debug", td, val, alt)
                same_fmt(rep, "C15:debug:%s:%s:%s" % (label, name, "alternate" if alt else "plain"), a, b, "debug text equals display text for %s" % name, wd)
    for label in ("typed", "stream"):
        ls = {n: labels.get((label, n)) for n, _ in variants_with_fields(cl)}
        for a in ls:
            clash = [b for b in ls if b != a and ls[a] and ls[b] and (ls[a].strip() == ls[b].strip() or ls[b].startswith(ls[a]))]
            rep.ob("C15:distinct:%s:%s" % (label, a), not clash, "the text of %s is told apart from every other kind" % a, error_impl(cl, "core::fmt::Display", TE)[1], "%s starts like %s (%r)" % (a, clash, ls[a]))


def inner_of(cl, rv):
    return cl.observe(St(), rv, "into_inner")


def same_fmt(rep, key, a, b, desc, where):
    bad = None
    n = 0
    for x in a:
        for y in b:
            f = merge_facts(x.facts, y.facts)
            if f is None:
                continue
            n += 1
            if failed_write(x) or failed_write(y):
                continue
            if not (eqv(x.extra, y.extra, f) and eqv(x.ret, y.ret, f)):
                bad = bad or "%s against %s" % (show(x.extra), show(y.extra))
    goodb = [y for y in b if not failed_write(y)]
    if not goodb:
        bad = bad or "no successful outcome"
    for y in b:
        if failed_write(y) and fmt_ok(y):
            bad = bad or "a failure to write is not reported"
        if not failed_write(y) and not any(merge_facts(x.facts, y.facts) is not None for x in a):
            bad = bad or "unmatched outcome"
    rep.ob(key, bad is None and n > 0, desc, where, bad or "%d outcome pairs" % n)


CAUSE = {"CommunicationError": 0, "InvalidUpgrade": 0, "ResponseBodyError": 0, "InvalidResponsePayload": 1}
SRC = "core::error::Error::source"


def c16(cl, rep):
    E = cl.E
    TE = T("param", 0, "E")
    for label, e in (("typed", TE), ("stream", T("adt", cl.BS, ()))):
        t, w = error_impl(cl, "core::error::Error", e)
        _, wd = error_impl(cl, "core::fmt::Display", e)
        for name, fs in variants_with_fields(cl):
            val = cl.error(name, *fs)
            st = St()
            outs = cl.outs(E.call_trait(st, "core::error::Error", "source", (t,), [E.newref(st, val)], None, 0, [None]))
            want = some(fs[CAUSE[name]]) if name in CAUSE else NONE
            cl.compare(rep, "C16:source:%s:%s" % (label, name), w, outs, lambda ask: want, "the source of %s is exactly the error it wraps, if any" % name)
            if any(im["trait"] == "core::error::Error" and "cause" in im["items"] for im in E.impls):
                outs = cl.outs(E.call_trait(St(), "core::error::Error", "cause", (t,), [E.newref(st, val)], None, 0, [None]))
                cl.compare(rep, "C16:cause:%s:%s" % (label, name), w, outs, lambda ask: want, "the cause of %s is its source" % name)
            # alternate text
            plain = [o for o in run_fmt(cl, "core::fmt::Display", t, val, False) if not failed_write(o)]
            alt = run_fmt(cl, "core::fmt::Display", t, val, True)
            bad = None
            n = 0
            if len(plain) != 1:
                bad = "the plain text has %d forms" % len(plain)
            base = written(plain[0].extra) if plain else None
            for o in alt:
                if failed_write(o):
                    if fmt_ok(o):
                        bad = bad or "a failure to write a cause is not reported"
                    continue
                tx = written(o.extra)
                if tx is None or base is None or not fmt_ok(o):
                    bad = bad or "returns %s with %s" % (show(o.ret), show(o.extra))
                    continue
                n += 1
                if name in CAUSE:
                    c0 = call(SRC, fs[CAUSE[name]])
                    good = chain_text(base, tx, c0, o.facts)
                else:
                    good = eqv(base, tx, o.facts)
                if not good:
                    bad = bad or "alternate text %s after %s" % (show(tx), show(base))
            rep.ob("C16:alternate:%s:%s" % (label, name), bad is None and n > 0, "the alternate text of %s appends each further cause below the wrapped one, once and in order" % name, wd, bad or "%d outcomes" % n)


def chain_text(base, tx, c0, facts):
    """tx == base followed by separator+display of each error of the chain c0, source(c0), ..."""
    seps = set()
    for x in subterms(tx):
        if x.op == "star":
            ps = pieces(x.a[2])
            if ps and ps[0].op == "str":
                seps.add(ps[0].a[0])
    if facts.get(var(c0)) == 0 and eqv(base, tx, facts):
        return True
    b = mk("binder", 0)
    for sep in seps or {": "}:
        if not sep.strip():
            continue
        for k in ("Display",):
            want = cat(base, mk("star", mk("chain", c0, b, call(SRC, b)), b, cat(lstr(sep), mk("disp", k, b, 0))))
            if eqv(want, tx, facts):
                return True
    return False


# ---------------------------------------------------------------------- C17 / C18
def c17(cl, rep):
    E = cl.E
    t = T("adt", cl.ERR, (T("param", 0, "E"),))
    x = sym("cause")
    RE = T("adt", "reqwest::error::Error", ())
    IH = T("adt", "http::header::value::InvalidHeaderValue", ())
    for key, ft, want in (("reqwest", RE, cl.error("CommunicationError", x)), ("header", IH, cl.error("InvalidRequest", mk("disp", "Display", x, 0)))):
        im, b = cl.trait_impl("core::convert::From", (t, ft))
        outs = cl.outs(E.call_trait(St(), "core::convert::From", "from", (t, ft), [x], None, 0, [ft]))
        cl.compare(rep, "C17:" + key, cl.where(im["items"]["from"]), outs, lambda ask: want, "a %s error converts to the matching kind, with everything" % key)
    # no other conversion may claim one of these types with a different meaning
    n = [im for im in E.impls if im["trait"] == "core::convert::From" and im["self"].a[0] == "adt" and im["self"].a[1] == cl.ERR]
    rep.ob("C17:count", len(n) >= 2, "the conversions exist", "", "%d conversions into Error" % len(n))


RB = "reqwest::async_impl::request::RequestBuilder"


def hval(v):
    if v.op == "headervalue":
        return v.a[0].a[0]
    if v.op == "str":
        return v.a[0]
    return None


def hname(v):
    if v.op == "hname":
        return v.a[0]
    if v.op == "str":
        return v.a[0].lower()
    return None


def c18(cl, rep):
    E = cl.E
    c = [im for im in E.impls if im["trait"] and im["trait"].rsplit("::", 1)[-1] == "RequestBuilderExt" and "form_urlencoded" in im["items"]]
    if len(c) != 1:
        raise Missing("implementation of form_urlencoded (%d)" % len(c))
    bid = c[0]["items"]["form_urlencoded"]
    w = cl.where(bid)
    rb, body = sym("rb"), sym("body")
    outs = cl.run(bid, [rb, body])
    ser = call("serde_urlencoded::ser::to_string", body)
    bad = None
    n = [0, 0]
    for o in outs:
        k = o.facts.get(var(ser))
        if k is None:
            # the result does not look at the serialisation outcome at all
            bad = bad or "returns %s without deciding whether the body serialised" % show(o.ret)
            continue
        n[k] += 1
        if k == 1:
            r = fld(o.ret, 1, 0) if is_ok(o) is False else None
            if r is None or not (r.op == "agg" and r.a[0] == cl.ERR and r.a[1] == cl.vidx["InvalidRequest"]):
                bad = bad or "a body that cannot be serialised gives %s" % show(o.ret)
            continue
        if not is_ok(o):
            bad = bad or "a serialised body gives %s" % show(o.ret)
            continue
        x = payload(o)
        hs, bs = [], []
        while x.op == "call" and x.a[0] in (RB + "::header", RB + "::body"):
            if x.a[0].endswith("::header"):
                hs.append((hname(x.a[1][1]), hval(x.a[1][2])))
            else:
                bs.append(x.a[1][1])
            x = x.a[1][0]
        if x is not rb:
            bad = bad or "the request is %s" % show(x)
        if len(bs) != 1 or not eqv(fld(ser, 0, 0), bs[0], o.facts):
            bad = bad or "the body is %s" % [show(b) for b in bs]
        if hs != [("content-type", "application/x-www-form-urlencoded")]:
            bad = bad or "the headers added are %s" % hs
    rep.ob("C18:form", bad is None and n[0] > 0 and n[1] > 0, "the body is the whole URL-encoded serialisation under the form content type; a failed serialisation is an invalid request", w, bad or "%d outcomes" % len(outs))


# ---------------------------------------------------------------------- C19 .. C21
PANICKY = [
    "core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut", "slice::copy_from_slice", "slice::clone_from_slice", "slice::split_at", "slice::split_at_mut", "slice::swap", "slice::chunks", "slice::windows", "slice::chunks_exact", "slice::rotate_left", "slice::rotate_right",
    "str::split_at", "str::split_at_mut", "alloc::string::String::remove", "alloc::string::String::insert", "alloc::string::String::insert_str", "alloc::string::String::split_off", "alloc::string::String::drain", "alloc::string::String::replace_range", "alloc::string::String::truncate",
    "alloc::vec::Vec::remove", "alloc::vec::Vec::swap_remove", "alloc::vec::Vec::insert", "alloc::vec::Vec::split_off", "alloc::vec::Vec::drain",
    "bytes::bytes::Bytes::slice", "bytes::bytes::Bytes::split_to", "bytes::bytes::Bytes::split_off", "bytes::bytes::Bytes::slice_ref", "bytes::buf::buf_impl::Buf::advance", "bytes::bytes_mut::BytesMut::split_to", "bytes::bytes_mut::BytesMut::split_off",
    "core::cell::RefCell::borrow", "core::cell::RefCell::borrow_mut", "core::cell::RefCell::replace", "core::cell::RefCell::swap",
    "http::header::name::HeaderName::from_static", "http::header::value::HeaderValue::from_static", "core::iter::traits::iterator::Iterator::step_by",
    "core::char::methods::to_digit", "char::to_digit", "std::thread::spawn", "tokio::runtime::runtime::Runtime::block_on", "reqwest::async_impl::client::Client::new", "futures_executor::local_pool::block_on",
    "core::str::converts::from_utf8_unchecked", "core::hint::unreachable_unchecked", "core::option::Option::unwrap_unchecked", "core::result::Result::unwrap_unchecked",
    "std::time::Instant::duration_since", "core::time::Duration::from_secs_f64", "core::time::Duration::from_secs_f32", "alloc::alloc::handle_alloc_error",
    "core::ops::arith::Sub::sub", "core::ops::arith::Mul::mul", "core::ops::arith::Div::div", "core::ops::arith::Rem::rem", "core::ops::arith::SubAssign::sub_assign", "core::ops::arith::MulAssign::mul_assign",
    "std::collections::hash::map::HashMap::index",
]


def benign_overflow(p):
    """adding a small constant to a counter or a length cannot overflow a 64-bit word"""
    w = p["what"]
    return isinstance(w, str) and "overflow" in w.lower() and p.get("benign")


def c19(cl, rep):
    E = cl.E
    n = 0
    for bid, b in sorted(E.bodies.items()):
        if b["kind"] not in ("Fn", "AssocFn") or "::{closure" in bid:
            continue
        E.panics = []
        E.recursions = []
        before = dict(E.unmodelled)
        E.unmodelled = {}
        st = St()
        args = []
        for i in range(b["argc"]):
            t = E.ty(b["locals"][i + 1])
            nm = next((v[0] for v in b["vars"] if v[1] == [i + 1, []]), "a%d" % i)
            if t.a[0] == "ref":
                isfmt = t.a[1].a[0] == "adt" and t.a[1].a[1] == "core::fmt::Formatter"
                args.append(mk("ref", E.alloc(st, FMT if isfmt else sym(nm)), ()))
            else:
                args.append(sym(nm))
        key = "C19:" + E.bodies[bid]["path"]
        outs = []
        for s, v in E.run_body(st, bid, (), args):
            w = E.deref(s, v)
            if w.op == "agg" and isinstance(w.a[0], tuple) and w.a[0][0] == "coroutine":
                outs.extend(cl.poll(s, v))
            else:
                outs.append((s, v))
        n += len(outs)
        bad = None
        for p in E.panics:
            if p.get("benign"):
                continue
            bad = bad or "%s:%s may panic (%s) in %s when %s" % (p["file"], p["line"], p["what"] if isinstance(p["what"], str) else p["what"], E.bodies[p["body"]]["path"], {show(a): v for a, v in list(p["facts"].items())[-4:]})
        for cn in E.unmodelled:
            if cn in PANICKY:
                bad = bad or "calls %s, which panics on some arguments" % cn
        for r in E.recursions:
            bad = bad or "%s calls itself again with the same arguments" % E.bodies[r]["path"]
        if not outs and not E.panics:
            bad = bad or "never returns"
        rep.ob(key, bad is None, "no panic, overflow or endless recursion in %s" % E.bodies[bid]["path"], cl.where(bid), bad or "%d outcomes" % len(outs))
        rep.analysed["outcomes"] = n


def witness_obligations(rep, prop, text, rc, msgs, stderr, package):
    """one obligation per function of a witness source"""
    fns = []
    for i, l in enumerate(text.splitlines(), 1):
        l = l.strip()
        if l.startswith("fn ") and l[3:].split("(")[0].split("<")[0] not in ("send_sync", "send", "spawn", "std_error"):
            fns.append((i, l[3:].split("(")[0].split("<")[0]))
    errs = {}
    for m in msgs:
        if m["message"]["level"] != "error":
            continue
        if m["target"]["name"] != package:
            raise BuildFailure("%s does not compile: %s" % (m["target"]["name"], m["message"]["rendered"]))
        lines = [s["line_start"] for s in m["message"]["spans"] if s["is_primary"]]
        f = None
        for i, nme in fns:
            if lines and i <= lines[0]:
                f = nme
        errs.setdefault(f, []).append(m["message"])
    return fns, errs


class BuildFailure(Exception):
    pass


def c20(cl, rep):
    import build, os
    src = os.path.join(build.VERIF, "witness", "threads", "src", "lib.rs")
    text = open(src).read()
    rc, msgs, err = build.threads_witness()
    fns, errs = witness_obligations(rep, "C20", text, rc, msgs, err, "threads")
    if rc and not errs:
        raise BuildFailure("the witness crate does not build:\n" + err[-3000:])
    hoisted = errs.get(None)
    for i, f in fns:
        if f.startswith("control"):
            continue
        e = errs.get(f) or hoisted
        rep.ob("C20:" + f, not e, "type-checks: " + f, "witness/threads/src/lib.rs:%d %s" % (i, f), e[0]["message"] + (" | " + e[0]["rendered"])[:1200] if e else "accepted by rustc")
    # the same crate with obligations that must fail: shows the rule can fire
    if not errs:
        rc, msgs, err = build.threads_witness(control=True)
        fns, errs = witness_obligations(rep, "C20", text, rc, msgs, err, "threads")
        for i, f in fns:
            if f.startswith("control"):
                if not errs.get(f):
                    raise BuildFailure("control obligation %s was accepted by the compiler" % f)
        rep.analysed["controls_rejected"] = len([1 for _, f in fns if f.startswith("control")])


# the dependencies a stand-alone crate with the embedded runtime always has (G18 checks this table against cargo-progenitor)
STANDALONE_DEPS = ['bytes = "1.9"', 'futures-core = "0.3"', 'reqwest = { version = "0.12", default-features = false, features = ["json", "stream"] }',
                   'serde = { version = "1.0", features = ["derive"] }', 'serde_urlencoded = "0.7"', 'percent-encoding = "2.3"', 'serde_json = "1.0"']


def c21(cl, rep):
    import build, os
    E = cl.E
    f = cl.free_fn("code")
    w = cl.where(f)
    outs = cl.run(f, [])
    text = outs[0].ret if len(outs) == 1 else None
    if not rep.ob("C21:constant", text is not None and text.op == "str", "code() returns one fixed text", w, show(text)[:200] if text is not None else "%d outcomes" % len(outs)):
        return
    text = text.a[0]
    files = {}
    for bid, b in E.bodies.items():
        if bid != f:
            files.setdefault(b["file"], []).append(b["path"])
    rep.analysed["compiled_items"] = sum(len(x) for x in files.values())
    for fl, items in sorted(files.items()):
        try:
            content = open(os.path.join(build.REPO, fl), encoding="utf-8").read()
        except OSError as e:
            content = None
        rep.ob("C21:same:" + os.path.basename(fl), content == text, "the %d functions compiled from %s come from the text code() embeds" % (len(items), fl), w,
               "%s is compiled into the runtime but its text is not the text of code()" % fl)
    rc, msgs, err = build.standalone_witness(text, STANDALONE_DEPS)
    errs = [m for m in msgs if m["message"]["level"] == "error"]
    if rc and not errs:
        raise BuildFailure("the stand-alone crate does not build:\n" + err[-3000:])
    rep.ob("C21:standalone", not errs, "the embedded text compiles as a module of a crate with only the generated crate's dependencies", w, errs[0]["message"]["rendered"][:1500] if errs else "accepted by rustc")
