"""Obligations, outcome trees and term comparison shared by the property specifications."""
from terms import *
from interp import Engine, St, T, NeedSplit, Unsupported


class Missing(Exception):
    """an anchor the specification needs is not in the source"""


class Ask(Exception):
    def __init__(self, atom, values):
        self.atom, self.values = atom, values


def leaves(spec):
    """decision tree of a specification: [(facts, result)]"""
    work, out = [{}], []
    while work:
        facts = work.pop()

        def ask(atom, values=(True, False)):
            if atom.op == "bool":
                return atom.a[0]
            if atom in facts:
                return facts[atom]
            raise Ask(atom, values)

        try:
            out.append((dict(facts), spec(ask)))
        except Ask as e:
            for v in e.values:
                f = dict(facts)
                f[e.atom] = v
                work.append(f)
    return out


def var(t):
    return mk("var", t)


class Outcome:
    __slots__ = ("facts", "ret", "st", "extra")

    def __init__(self, facts, ret, st, extra=None):
        self.facts, self.ret, self.st, self.extra = facts, ret, st, extra


def norm_fact(a):
    """different ways of testing the same thing"""
    if a.op == "ieq":
        t, n = a.a
        # a pattern match on a StatusCode constant looks at its private number
        b = t
        depth = 0
        while b.op == "fld" and b.a[1] in (0, None) and b.a[2] == 0:
            b = b.a[0]
            depth += 1
        if depth and b.op == "call" and isinstance(b.a[0], str) and b.a[0].endswith("Response::status") and n.op == "int":
            return mk("ieq", call("StatusCode::as_u16", b), n)
    return a


def merge_facts(f1, f2):
    d = dict(f1)
    for a, v in f2.items():
        if a in d:
            if d[a] != v:
                return None
        else:
            d[a] = v
    # exclusive literals
    lit = {}
    for a, v in d.items():
        if a.op == "ieq" and v is True:
            k = a.a[0]
            if k in lit and lit[k] is not a.a[1]:
                return None
            lit[k] = a.a[1]
    return d


def eqv(e, a, facts, n=0):
    """expected and actual denote the same value under the facts"""
    if e is a:
        return True
    if n > 60:
        return False
    n += 1
    if e.op == "any":
        return e.a[0](a) if e.a else True
    if e.op == "phi":
        r = [v for g, v in e.a[0] if all(facts.get(x, y) == y for x, y in g)]
        return bool(r) and all(eqv(v, a, facts, n) for v in r)
    if a.op == "phi":
        r = [v for g, v in a.a[0] if all(facts.get(x, y) == y for x, y in g)]
        return bool(r) and all(eqv(e, v, facts, n) for v in r)
    if e.op == "agg" and a.op == "agg":
        return e.a[0] == a.a[0] and e.a[1] == a.a[1] and len(e.a[2]) == len(a.a[2]) and all(eqv(x, y, facts, n) for x, y in zip(e.a[2], a.a[2]))
    # eta: an opaque value whose variant is known
    if e.op == "agg" and facts.get(var(a)) == e.a[1]:
        return all(eqv(x, fld(a, e.a[1], i), facts, n) for i, x in enumerate(e.a[2]))
    if a.op == "agg" and facts.get(var(e)) == a.a[1]:
        return all(eqv(fld(e, a.a[1], i), x, facts, n) for i, x in enumerate(a.a[2]))
    if "cat" in (e.op, a.op) or "star" in (e.op, a.op):
        return eqv_text(pieces(e), pieces(a), facts, n)
    # literals established by the facts
    for x, y in ((e, a), (a, e)):
        if x.op in ("str", "int", "bool", "char") and facts.get(mk("ieq", y, x)) is True:
            return True
    if e.op == a.op and e.op in ("call", "star", "chain", "disp", "dispf", "fld", "with", "seq", "e", "pctenc", "iter", "step", "upd"):
        return eqv_args(e.a, a.a, facts, n)
    return False


def eqv_args(x, y, facts, n):
    if isinstance(x, Term) and isinstance(y, Term):
        return eqv(x, y, facts, n)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(eqv_args(p, q, facts, n) for p, q in zip(x, y))
    return x == y


def unroll(p, facts):
    """a star over a chain whose start is decided by the facts, unrolled once"""
    if p.op == "star" and p.a[0].op == "chain":
        init, b, stp = p.a[0].a
        body_b, body = p.a[1], p.a[2]
        k = init.a[1] if init.op == "agg" else facts.get(var(init))
        if k == 0:
            return []
        if k == 1:
            x = fld(init, 1, 0)
            nxt = subst(stp, {b: x})
            first = subst(body, {body_b: x})
            return pieces(first) + [mk("star", mk("chain", nxt, b, stp), body_b, body)]
    if p.op == "star" and p.a[0].op == "iter":
        x = p.a[0].a[0]
        # the chunks of a percent-encoding, concatenated, are the encoding
        if x.op == "pctenc" and p.a[1] is p.a[2]:
            return [x]
    return None


def eqv_text(e, a, facts, n):
    e, a = list(e), list(a)
    i = 0
    guard = 0
    while guard < 200:
        guard += 1
        if not e and not a:
            return True
        if e and a:
            if e[0] is a[0]:
                e.pop(0)
                a.pop(0)
                continue
            if e[0].op == "str" and a[0].op == "str":
                x, y = e[0].a[0], a[0].a[0]
                if x.startswith(y):
                    e[0] = lstr(x[len(y):])
                    a.pop(0)
                    continue
                if y.startswith(x):
                    a[0] = lstr(y[len(x):])
                    e.pop(0)
                    continue
                return False
            if e[0].op not in ("str", "cat") and a[0].op not in ("str", "cat") and not (e[0].op == "star" and a[0].op != "star") and not (a[0].op == "star" and e[0].op != "star") and eqv(e[0], a[0], facts, n + 1):
                e.pop(0)
                a.pop(0)
                continue
        done = False
        for l in (e, a):
            if l:
                u = unroll(l[0], facts)
                if u is not None:
                    l[0:1] = u
                    done = True
                    break
                if l[0].op == "phi":
                    r = [v for g, v in l[0].a[0] if all(facts.get(x) == y for x, y in g)]
                    if len(r) == 1:
                        l[0:1] = pieces(r[0])
                        done = True
                        break
                if l[0].op == "cat":
                    l[0:1] = pieces(l[0])
                    done = True
                    break
                if l[0].op == "str" and l[0].a[0] == "":
                    l.pop(0)
                    done = True
                    break
        if not done:
            return False
    return False


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obs = []
        self.analysed = {}
        self.notes = []

    def ob(self, key, ok, desc, where="", detail=""):
        self.obs.append(dict(key=key, ok=bool(ok), desc=desc, where=where, detail=detail))
        return ok

    @property
    def failed(self):
        return [o for o in self.obs if not o["ok"]]


class Ctx:
    """access to the program under analysis by what things are, not where they are"""

    def __init__(self, facts, crate):
        self.facts = facts
        self.crate = crate
        self.E = Engine(facts)

    def adt(self, name):
        c = [k for k, v in self.E.adts.items() if v.get("local") and k.rsplit("::", 1)[-1] == name]
        if len(c) != 1:
            raise Missing("type %s: %d definitions" % (name, len(c)))
        return c[0]

    def variants(self, adt):
        return self.E.adts[adt]["variants"]

    def inherent(self, adt, name):
        """inherent method NAME of ADT: [(body id, impl)]"""
        out = []
        for im in self.E.impls:
            if im["trait"] is None and im["self"].a[0] == "adt" and im["self"].a[1] == adt and name in im["items"]:
                out.append((im["items"][name], im))
        return out

    def method(self, adt, name):
        c = self.inherent(adt, name)
        if len(c) != 1:
            raise Missing("method %s::%s: %d definitions" % (adt.rsplit("::", 1)[-1], name, len(c)))
        return c[0]

    def trait_impl(self, trait, targs):
        c = self.E.find_impls(trait, targs)
        if not c:
            raise Missing("impl of %s for %s" % (trait, show(targs[0])))
        return c[0]

    def free_fn(self, name):
        c = [k for k, b in self.E.bodies.items() if b.get("nm") == name and "impl" not in b and b["kind"] == "Fn"]
        if len(c) != 1:
            raise Missing("function %s: %d definitions" % (name, len(c)))
        return c[0]

    def where(self, bid):
        b = self.E.bodies.get(bid)
        if b is None:
            return bid
        return "%s:%s %s" % (b["file"], b["line"], b["path"])

    # -------------------------------------------------------------- running
    def outs(self, rs, st0=None):
        out = []
        for s, v in rs:
            facts = {}
            ok = True
            for a, x in s.facts.items():
                a = norm_fact(self.E.full(s, a) if a.op not in ("var",) else mk("var", self.E.full(s, a.a[0])))
                if a in facts and facts[a] != x:
                    ok = False
                facts[a] = x
            if not ok:
                continue
            out.append(Outcome(facts, self.E.full(s, v), s))
        return out

    def run(self, bid, args, targs=(), st=None):
        st = st or St()
        body = self.E.bodies.get(bid)
        if body is not None:
            # what a mutable reference argument refers to is a location of its own
            args = list(args)
            for i, a in enumerate(args[:body["argc"]]):
                t = self.E.ty(body["locals"][i + 1])
                if t.a[0] == "ref" and t.a[2] and a.op != "ref":
                    args[i] = self.E.newref(st, a)
        return self.outs(self.E.run_body(st, bid, targs, args))

    def run_states(self, bid, args, targs=(), st=None):
        return self.E.run_body(st or St(), bid, targs, args)

    def run_async(self, bid, args, targs=(), st=None):
        """call an async function and drive the future it returns to completion"""
        out = []
        for s, v in self.E.run_body(st or St(), bid, targs, args):
            for s2, p in self.poll(s, v):
                out.append((s2, p))
        return self.outs(out)

    def poll(self, st, v):
        from interp import Call
        import models
        loc = self.E.alloc(st, v)
        c = Call("poll", [mk("ref", loc, ()), sym("cx")], (), None, 0, None, None)
        return [(s, self.E.simp(s, fld(r, 0, 0))) for s, r in self.E.apply_model(models.poll, st, c)]

    def eta_outs(self, outs):
        return outs

    def compare(self, rep, key, where, outs, spec, desc, obs=lambda o: o.ret, match=None):
        """every outcome agrees with every specification leaf it is consistent with"""
        ls = leaves(spec)
        covered = set()
        bad = None
        n = 0
        for o in outs:
            hit = False
            for i, (lf, exp) in enumerate(ls):
                f = merge_facts(lf, o.facts)
                if f is None:
                    continue
                hit = True
                covered.add(i)
                n += 1
                got = obs(o)
                good = match(exp, got, f) if match else eqv(exp, got, f)
                if not good and bad is None:
                    bad = "when %s: expected %s, found %s" % (
                        ", ".join("%s=%s" % (show(a), v) for a, v in sorted(f.items(), key=lambda p: show(p[0]))) or "always",
                        show(exp) if isinstance(exp, Term) else exp, show(got) if isinstance(got, Term) else got)
            if not hit and bad is None:
                bad = "an outcome contradicts every case of the specification: %s" % {show(a): v for a, v in o.facts.items()}
        missing = [i for i in range(len(ls)) if i not in covered]
        if missing and bad is None:
            bad = "no outcome for the case %s" % {show(a): v for a, v in ls[missing[0]][0].items()}
        rep.ob(key, bad is None, desc, where, bad or "%d outcome/case pairs over %d outcomes and %d cases" % (n, len(outs), len(ls)))
        return bad is None
