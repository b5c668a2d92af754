"""Iterators as values: a state term per iterator, advanced by `nxt`; consumers are loops summarised like the program's own."""
from terms import *
from interp import T, tref, strip_refs, NeedSplit, Unsupported, Call
from models import model, M, PM, SEQTYPES, is_str, branches, variants, pay, ser_compound, SER, ident

IT = "core::iter::traits::iterator::Iterator::"
DE = "core::iter::traits::double_ended::DoubleEndedIterator::"
RANGE = "core::ops::range::Range"


def mkit(kind, *a):
    return agg(("iter", kind), 0, a)


def isit(v):
    return v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "iter"


def citer(items, i=0):
    return mkit("list", arr(items), lint(i))


def of(E, st, v):
    """iterator state for a value that is iterated over (by value or by reference)"""
    byref = v.op == "ref"
    x = E.deref(st, v)
    if x.op == "phi":
        raise NeedSplit("phi", x)
    if isit(x) or (x.op == "agg" and x.a[0] == RANGE):
        return x
    items = E.concrete_items(x)
    if items is not None:
        if byref:
            # elements are visited by reference (the collection is not modified meanwhile)
            items = [E.newref(st, y) for y in items]
        return citer(items)
    if x.op == "agg" and x.a[0] == OPT:
        return citer(list(x.a[2]))
    if x.op in ("call", "fld", "sym", "upd", "lv", "seq", "star", "pctenc", "index", "arith", "loopvar", "mapof", "sorted"):
        return mkit("src", E.full(st, x))
    return None


def nxt(E, st, v, c):
    """[(state, item or None, next iterator state)]"""
    k = v.a[0][1]
    f = v.a[2]
    if k == "list":
        xs = E.simp(st, f[0])
        if xs.op == "phi":
            raise NeedSplit("phi", xs)
        items, i = E.concrete_items(xs), f[1]
        if i.op != "int":
            raise Unsupported("iteration position")
        if i.a[0] < len(items):
            return [(st, items[i.a[0]], citer(items, i.a[0] + 1))]
        return [(st, None, v)]
    if k == "src":
        r = call("next", f[0])
        out = []
        if f[0].op == "call" and f[0].a[0] in ("split", "rsplit"):
            # the first piece is always there
            return [(st, fld(r, 1, 0), mkit("src", mk("upd", "next", 0, f[0], ())))]
        for s, n in variants(E, st, r, OPT, 2):
            out.append((s, fld(r, 1, 0) if n else None, mkit("src", mk("upd", "next", 0, f[0], ()))))
        return out
    if k == "succ":
        out = []
        for s, n in variants(E, st, f[0], OPT, 2):
            if n == 0:
                out.append((s, None, v))
                continue
            x = pay(E, s, f[0], 1)
            for s2, y in E.call_value(s, f[1], [E.newref(s, x)], c.fr, c.line):
                out.append((s2, x, mkit("succ", E.full(s2, y), f[1])))
        return out
    if k == "fromfn":
        out = []
        for s, y in E.call_value(st, f[0], [], c.fr, c.line):
            for s2, n in variants(E, s, y, OPT, 2):
                out.append((s2, pay(E, s2, y, 1) if n else None, v))
        return out
    if k == "user":
        out = []
        for s, y in E.call_trait(st, IT[:-2], "next", (f[1],), (f[0],), c.fr, c.line):
            for s2, n in variants(E, s, y, OPT, 2):
                out.append((s2, pay(E, s2, y, 1) if n else None, v))
        return out
    if k == "map":
        out = []
        for s, x, n in nxt(E, st, f[0], c):
            if x is None:
                out.append((s, None, mkit("map", n, f[1])))
            elif x is SKIP:
                out.append((s, SKIP, mkit("map", n, f[1])))
            else:
                for s2, y in E.call_value(s, f[1], [x], c.fr, c.line):
                    out.append((s2, y, mkit("map", n, f[1])))
        return out
    if k == "inspect":
        out = []
        for s, x, n in nxt(E, st, f[0], c):
            if x is None:
                out.append((s, None, mkit("inspect", n, f[1])))
            elif x is SKIP:
                out.append((s, SKIP, mkit("inspect", n, f[1])))
            else:
                for s2, _ in E.call_value(s, f[1], [E.newref(s, x)], c.fr, c.line):
                    out.append((s2, x, mkit("inspect", n, f[1])))
        return out
    if k == "enum":
        out = []
        for s, x, n in nxt(E, st, f[0], c):
            if x is None:
                out.append((s, None, mkit("enum", n, f[1])))
            elif x is SKIP:
                out.append((s, SKIP, mkit("enum", n, f[1])))
            else:
                out.append((s, tup(f[1], x), mkit("enum", n, E.binop(s, "Add", f[1], lint(1)))))
        return out
    if k == "chain":
        out = []
        if f[0].op == "agg" and isit(f[0]):
            for s, x, n in nxt(E, st, f[0], c):
                if x is not None:
                    out.append((s, x, mkit("chain", n, f[1])))
                else:
                    for s2, y, n2 in nxt(E, s, f[1], c):
                        out.append((s2, y, mkit("chain", UNIT, n2)))
            return out
        if f[0] is not UNIT:
            raise Unsupported("iterator chain")
        for s2, y, n2 in nxt(E, st, f[1], c):
            out.append((s2, y, mkit("chain", UNIT, n2)))
        return out
    if k == "take":
        out = []
        for s, b in branches(E, st, E.eqterm(f[1], lint(0))):
            if b:
                out.append((s, None, v))
                continue
            for s2, x, n in nxt(E, s, f[0], c):
                out.append((s2, x, mkit("take", n, E.binop(s, "Sub", f[1], lint(1)))))
        return out
    if k == "pair":
        out = []
        for s, x, n in nxt(E, st, f[0], c):
            w = mkit("pair", n, *f[1:])
            out.append((s, x if x is None or x is SKIP else tup(subst(f[2], {f[1]: x}), subst(f[3], {f[1]: x})), w))
        return out
    if k == "zip":
        out = []
        for s, x, n in nxt(E, st, f[0], c):
            if x is None:
                out.append((s, None, mkit("zip", n, f[1])))
                continue
            if x is SKIP:
                out.append((s, SKIP, mkit("zip", n, f[1])))
                continue
            for s2, y, n2 in nxt(E, s, f[1], c):
                if y is SKIP:
                    raise Unsupported("zip with a filtered iterator")
                out.append((s2, None if y is None else tup(x, y), mkit("zip", n, n2)))
        return out
    if k in ("filter", "filtermap", "takewhile", "mapwhile", "skipwhile", "skip"):
        # one element at a time; skipped elements are handled by the consumer
        out = []
        for s, x, n in nxt(E, st, f[0], c):
            w = lambda: mkit(k, n, *f[1:])
            if x is None or x is SKIP:
                out.append((s, x, w()))
            elif k == "filter":
                for s2, r in E.call_value(s, f[1], [E.newref(s, x)], c.fr, c.line):
                    for s3, b in branches(E, s2, r):
                        out.append((s3, x if b else SKIP, w()))
            elif k == "filtermap":
                for s2, r in E.call_value(s, f[1], [x], c.fr, c.line):
                    for s3, b in variants(E, s2, r, OPT, 2):
                        out.append((s3, pay(E, s3, r, 1) if b else SKIP, w()))
            elif k == "takewhile":
                for s2, r in E.call_value(s, f[1], [E.newref(s, x)], c.fr, c.line):
                    for s3, b in branches(E, s2, r):
                        out.append((s3, x, w()) if b else (s3, None, citer([])))
            elif k == "mapwhile":
                for s2, r in E.call_value(s, f[1], [x], c.fr, c.line):
                    for s3, b in variants(E, s2, r, OPT, 2):
                        out.append((s3, pay(E, s3, r, 1), w()) if b else (s3, None, citer([])))
            elif k == "skip":
                for s2, b in branches(E, s, E.eqterm(f[1], lint(0))):
                    out.append((s2, x, mkit("skip", n, f[1])) if b else (s2, SKIP, mkit("skip", n, E.binop(s2, "Sub", f[1], lint(1)))))
            else:
                for s2, r in E.call_value(s, f[1], [E.newref(s, x)], c.fr, c.line):
                    for s3, b in branches(E, s2, r):
                        out.append((s3, SKIP, w()) if b else (s3, x, n))
        return out
    raise Unsupported("iterator %s" % k)


SKIP = mk("skip")


def nxt_full(E, st, v, c):
    """advance past skipped elements"""
    if v.op == "agg" and v.a[0] == RANGE:
        a, b = v.a[2]
        out = []
        for s, t in branches(E, st, E.binop(st, "Lt", a, b)):
            out.append((s, a, agg(RANGE, 0, (E.binop(s, "Add", a, lint(1)), b))) if t else (s, None, v))
        return out
    outs = []
    work = [(st, v)]
    n = 0
    while work:
        s, x = work.pop(0)
        n += 1
        if n > 200:
            raise Unsupported("iterator does not settle")
        for s2, it, nv in nxt(E, s, x, c):
            if it is SKIP:
                if nv.op == "agg" and contains(nv, lambda t: t.op == "upd" and t.a[0] == "next"):
                    raise Unsupported("filtered iteration by hand")
                work.append((s2, nv))
            else:
                outs.append((s2, it, nv))
    return outs


def recv(E, st, c, i=0):
    """the iterator an argument is, or None"""
    return of(E, st, c.args[i])


@model(IT + "next")
def it_next(E, st, c):
    v = E.deref(st, c.args[0])
    if v.op == "phi":
        raise NeedSplit("phi", v)
    it = v if isit(v) or (v.op == "agg" and v.a[0] == RANGE) else None
    if it is None and v.op in ("pctenc",):
        it = mkit("src", v)
    if it is None:
        r = call("next", E.full(st, v))
        store(E, st, c.args[0], mk("upd", "next", 0, E.full(st, v), ()))
        return [(st, r)]
    out = []
    for s0, it in materialise(E, st, it, c):
        for s, x, n in nxt_full(E, s0, it, c):
            s = s.copy()
            store(E, s, c.args[0], n)
            out.append((s, NONE if x is None else some(x)))
    return out


SKIPPING = ("filter", "filtermap", "takewhile", "mapwhile", "skipwhile", "skip", "flat")


def opaque_source(it):
    return isit(it) and (it.a[0][1] in ("src", "succ", "fromfn", "user", "pair") or any(opaque_source(x) for x in it.a[2] if x.op == "agg"))


def skipping(it):
    return isit(it) and (it.a[0][1] in SKIPPING or any(skipping(x) for x in it.a[2] if x.op == "agg"))


def materialise(E, st, it, c):
    """an iterator that drops elements of an unknown source, advanced by hand: the sequence it yields"""
    if not (skipping(it) and opaque_source(it)):
        return [(st, it)]
    acc = E.alloc(st, mk("seq", ()))
    out = []
    for s, _ in drive(E, st, c, it, lambda s, x: [(push_item(E, s, acc, x, False), None)], (acc,)):
        v = s.store[acc]
        n = of(E, s, E.newref(s, v))
        if n is None:
            raise Unsupported("filtered iteration by hand")
        out.append((s, n))
    return out


def store(E, st, r, v):
    from models import store_through
    store_through(E, st, r, v)


@model("core::iter::traits::collect::IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "core::option::Option::iter", "alloc::vec::Vec::iter", "alloc::collections::btree::map::BTreeMap::iter")
def into_iter(E, st, c):
    v = E.deref(st, c.args[0])
    t = strip_refs(c.targs[0]) if c.targs and c.targs[0] is not None else None
    if not isit(v) and (c.cn == "core::option::Option::iter" or c.cn.endswith("IntoIterator::into_iter") and t is not None and t.a[0] == "adt" and t.a[1] == OPT):
        out = []
        for s, n in variants(E, st, v, OPT, 2):
            out.append((s, citer([pay(E, s, v, 1)] if n else [])))
        return out
    if c.cn.endswith("IntoIterator::into_iter") and c.targs and c.targs[0] is not None:
        u = E.user_iter(st, c.targs[0], c.args[0])
        if isit(u) and u.a[0][1] == "user":
            # its own iterator
            return [(st, c.args[0])]
    it = of(E, st, c.args[0])
    if it is not None and c.cn.endswith("IntoIterator::into_iter"):
        try:
            return materialise(E, st, it, c)
        except Unsupported:
            return [(st, it)]
    if it is not None:
        return [(st, it)]
    return [(st, v)]


def once(E, st, c):
    return [(st, citer(list(c.args)))]


M["core::iter::sources::once::once"] = once
M["core::iter::sources::empty::empty"] = once


@model("core::iter::sources::successors::successors")
def successors(E, st, c):
    return [(st, mkit("succ", c.args[0], c.args[1]))]


@model("core::iter::sources::from_fn::from_fn")
def from_fn(E, st, c):
    return [(st, mkit("fromfn", E.newref(st, c.args[0])))]


@model("str::bytes", "str::chars", "str::char_indices", "str::split", "str::lines")
def str_iter(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "phi":
        raise NeedSplit("phi", v)
    nm = c.cn.rsplit("::", 1)[1]
    if v.op == "str":
        s = v.a[0]
        if nm == "bytes":
            return [(st, citer([lint(b) for b in s.encode()]))]
        if nm == "chars":
            return [(st, citer([lchar(x) for x in s]))]
        if nm == "char_indices":
            out, n = [], 0
            for ch in s:
                out.append(tup(lint(n), lchar(ch)))
                n += len(ch.encode())
            return [(st, citer(out))]
        if nm == "lines":
            ls = s.split("\n")
            if ls[-1] == "":
                ls.pop()
            return [(st, citer([lstr(x[:-1] if x.endswith("\r") else x) for x in ls]))]
        p = E.full(st, c.args[1])
        if p.op in ("str", "char") and p.a[0]:
            return [(st, citer([lstr(x) for x in s.split(p.a[0])]))]
    return [(st, mkit("src", call(nm, v, *[E.full(st, a) for a in c.args[1:]])))]


def adapter(name, kind, extra=None):
    def m(E, st, c):
        it = recv(E, st, c)
        if it is None or not isit(it):
            return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]
        args = list(c.args[1:]) if extra is None else extra(E, st, c)
        if args is None:
            return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]
        return [(st, mkit(kind, it, *args))]
    M[IT + name] = m


def fnref(E, st, c):
    return [E.newref(st, c.args[1])]


for n, k in (("map", "map"), ("filter", "filter"), ("filter_map", "filtermap"), ("inspect", "inspect"), ("take_while", "takewhile"), ("map_while", "mapwhile"), ("skip_while", "skipwhile")):
    adapter(n, k, fnref)
adapter("enumerate", "enum", lambda E, st, c: [lint(0)])
adapter("take", "take")


@model(IT + "skip")
def it_skip(E, st, c):
    it = recv(E, st, c)
    if it is None or not isit(it):
        return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]
    n = E.full(st, c.args[1])
    if n.op != "int" or n.a[0] > 8:
        return [(st, mkit("skip", it, n))]
    # a fixed number of elements: taken up front
    work = [(st, it)]
    for _ in range(n.a[0]):
        work = [(s2, citer([]) if x is None else nv) for s, v in work for s2, x, nv in nxt_full(E, s, v, c)]
    return work


adapter("flat_map", "flat", fnref)
adapter("flatten", "flat", lambda E, st, c: [UNIT])


def second(E, st, c):
    it = of(E, st, c.args[1])
    return None if it is None or not isit(it) else [it]


adapter("chain", "chain", second)
adapter("zip", "zip", second)


def one_each(it):
    """(source, binder, element) of an iterator over a sequence with exactly one element per element of a source"""
    if not (isit(it) and it.a[0][1] == "src" and it.a[2][0].op == "seq"):
        return None
    x = it.a[2][0].a[0]
    if len(x) != 1 or x[0].op != "star":
        return None
    src, b, body = x[0].a
    if src.op != "iter":
        return None
    els = []
    for g, v in body.a[0] if body.op == "phi" else ((frozenset(), body),):
        if v.op != "seq" or len(v.a[0]) != 1 or v.a[0][0].op != "e":
            return None
        els.append((g, v.a[0][0].a[0]))
    return src.a[0], b, phi(els)


def one_each_seq(c):
    """(collection, binder, element): what iterating over a value yields, one per element of the collection"""
    p = one_each(mkit("src", c)) if c.op == "seq" else None
    if p is not None:
        return p
    b = mk("binder", 1001)
    return nested_each(c, b) or (c, b, b)


def nested_each(c, b):
    """the same for a sequence with one element per element of the collections in a collection"""
    path, x = [], c
    while x.op == "seq" and len(x.a[0]) == 1 and x.a[0][0].op == "star" and x.a[0][0].a[0].op == "iter":
        src, b0, body = x.a[0][0].a
        nb = mk("binder", 2000 + len(path))
        path.append((src, nb))
        x = subst(body, {b0: nb})
    if len(path) < 2 or x.op != "seq" or len(x.a[0]) != 1:
        return None
    x = x.a[0][0]
    if x.op == "spread" and x.a[0].op == "phi" and all(v.op == "seq" and len(v.a[0]) == 1 and v.a[0][0].op == "e" for _, v in x.a[0].a[0]):
        x = mk("e", phi([(g, v.a[0][0].a[0]) for g, v in x.a[0].a[0]]))
    if x.op != "e":
        return None
    base = mk("seq", (mk("e", tup(*[nb for _, nb in path])),))
    for src, nb in reversed(path):
        base = mk("seq", (mk("star", src, nb, base),))
    return base, b, subst(x.a[0], {nb: fld(b, 0, i) for i, (_, nb) in enumerate(path)})


def zip_model(old):
    def f(E, st, c):
        x, y = recv(E, st, c), of(E, st, c.args[1])
        # pairing a collection with a sequence made from its elements, or two such sequences
        if x is not None and y is not None and isit(x) and isit(y):
            px, py = one_each(x), one_each(y)
            sx = px[0] if px else x.a[2][0] if x.a[0][1] == "src" else None
            sy = py[0] if py else y.a[2][0] if y.a[0][1] == "src" else None
            if (px or py) and sx is not None and sx is sy:
                b = mk("binder", 1000)
                ex = subst(px[2], {px[1]: b}) if px else b
                ey = subst(py[2], {py[1]: b}) if py else b
                return [(st, mkit("pair", mkit("src", sx), b, ex, ey))]
        return old(E, st, c)
    return f


M[IT + "zip"] = zip_model(M[IT + "zip"])


@model(IT + "rev")
def it_rev(E, st, c):
    it = recv(E, st, c)
    if it is not None and isit(it) and it.a[0][1] == "list" and it.a[2][1].op == "int":
        return [(st, citer(list(reversed(E.concrete_items(it.a[2][0])[it.a[2][1].a[0]:]))))]
    return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]


def split_flat(it):
    """(outer iterator, closure, adapters on top) of a flattened iterator"""
    tops = []
    while isit(it):
        k = it.a[0][1]
        if k == "flat":
            return it.a[2][0], it.a[2][1], tops
        if k not in ("map", "filter", "filtermap", "inspect"):
            return None
        tops.append((k, it.a[2][1]))
        it = it.a[2][0]
    return None


def finite(it):
    """an iterator over known elements, under adapters without state"""
    while isit(it):
        k = it.a[0][1]
        if k == "list":
            return it.a[2][1].op == "int"
        if k not in ("map", "filter", "filtermap", "inspect"):
            return False
        it = it.a[2][0]
    return False


def split_chain(it):
    """the two halves of a chained iterator, each under the element-wise adapters on top"""
    tops = []
    while isit(it):
        k = it.a[0][1]
        if k == "chain":
            if it.a[2][0] is UNIT:
                return None
            out = []
            for h in it.a[2]:
                for kk, g in reversed(tops):
                    h = mkit(kk, h, g)
                out.append(h)
            return out
        if k == "src" and it.a[2][0].op == "seq":
            # the elements known to come first, then the rest
            items, n, first = it.a[2][0].a[0], 0, []
            while n < len(items):
                x = items[n]
                if x.op == "spread" and x.a[0].op == "phi" and all(v.op == "seq" and len(v.a[0]) == 1 and v.a[0][0].op == "e" for _, v in x.a[0].a[0]):
                    first.append(phi([(g, v.a[0][0].a[0]) for g, v in x.a[0].a[0]]))
                elif x.op == "e":
                    first.append(x.a[0])
                else:
                    break
                n += 1
            if n == 0 or n == len(items):
                return None
            out = []
            for h in (citer(first), mkit("src", mk("seq", items[n:]))):
                for kk, g in reversed(tops):
                    h = mkit(kk, h, g)
                out.append(h)
            return out
        if k not in ("map", "filter", "filtermap", "inspect"):
            return None
        tops.append((k, it.a[2][1]))
        it = it.a[2][0]
    return None


def inner_of(E, st, y):
    """[(state, iterator)] over a value that is flattened"""
    v = E.deref(st, y)
    if v.op == "agg" and v.a[0] == OPT:
        return [(st, citer(list(v.a[2])))]
    if v.op == "agg" and v.a[0] == RES:
        return [(st, citer(list(v.a[2]) if v.a[1] == 0 else []))]
    ty = None
    if v.op == "call" and v.a[0] in E.bodies:
        ty = E.ty(E.bodies[v.a[0]]["locals"][0])
    if ty is not None and ty.a[0] == "adt" and ty.a[1] in (OPT, RES):
        good = 1 if ty.a[1] == OPT else 0
        return [(s, citer([pay(E, s, v, good)] if k == good else [])) for s, k in variants(E, st, v, ty.a[1], 2)]
    it = of(E, st, y)
    if it is None or not isit(it):
        raise Unsupported("flattened value %s" % show(E.full(st, v))[:100])
    return [(st, it)]


def drive(E, st, c, it, act, accs):
    """run act on every element. act(state, item) -> [(state, None | value)] (a value breaks).
    Returns [(state, None | value)] for the states after the loop."""
    ch = split_chain(it)
    if ch is not None:
        out, on = [], []
        for s, v in drive(E, st, c, ch[0], act, accs):
            if v is not None:
                out.append((s, v))
            else:
                on.append(s)
        for s in [E.merge(on)] if len(on) > 4 else on:
            out.extend(drive(E, s, c, ch[1], act, accs))
        return out
    fl = split_flat(it)
    if fl is not None:
        outer, f, tops = fl

        def act2(s, x):
            out = []
            for s2, y in (E.call_value(s, f, [x], c.fr, c.line) if f is not UNIT else [(s, x)]):
                for s3, inner in inner_of(E, s2, y):
                    for k, g in reversed(tops):
                        inner = mkit(k, inner, g)
                    out.extend(drive(E, s3, c, inner, act, accs))
            return out
        return drive(E, st, c, outer, act2, accs)
    if finite(it):
        # one element after the other
        out, work = [], [(st, it)]
        while work:
            nw = []
            for s, i in work:
                for s1, x, n in nxt(E, s, i, c):
                    if x is None:
                        out.append((s1, None))
                    elif x is SKIP:
                        nw.append((s1, n))
                    else:
                        for s2, v in act(s1, x):
                            if v is None:
                                nw.append((s2, n))
                            else:
                                out.append((s2, v))
            if len(nw) > 4 and all(n is nw[0][1] for _, n in nw):
                nw = [(E.merge([s for s, _ in nw]), nw[0][1])]
            work = nw
        return out
    loc = E.alloc(st, it)
    brk = E.alloc(st, UNIT)

    def step(s):
        back, ex = [], []
        for s1, x, n in nxt(E, s, s.store[loc], c) if isit(s.store[loc]) else nxt_full(E, s, s.store[loc], c):
            s1 = s1.copy()
            s1.store[loc] = n
            if x is None:
                ex.append(("done", s1))
            elif x is SKIP:
                back.append(s1)
            else:
                for s2, v in act(s1, x):
                    if v is None:
                        back.append(s2)
                    else:
                        s2 = s2.copy()
                        s2.store[brk] = v
                        ex.append(("brk", s2))
        return back, ex

    out = []
    for tag, s in E.iterate(st, step, c.fr):
        out.append((s, s.store[brk] if tag == "brk" else None))
    return out


def consumer(*names):
    def d(f):
        def m(E, st, c):
            it = recv(E, st, c)
            if it is None or not (isit(it) or it.a[0] == RANGE):
                return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]
            return f(E, st, c, it)
        for n in names:
            M[IT + n] = m
        return f
    return d


@consumer("for_each")
def for_each(E, st, c, it):
    fr = E.newref(st, c.args[1])
    return [(s, UNIT) for s, _ in drive(E, st, c, it, lambda s, x: [(s2, None) for s2, _ in E.call_closure_ref(s, fr, [x], c.fr, c.line)], ())]


@consumer("try_for_each")
def try_for_each(E, st, c, it):
    fr = E.newref(st, c.args[1])

    def act(s, x):
        out = []
        for s2, r in E.call_closure_ref(s, fr, [x], c.fr, c.line):
            for s3, k in variants(E, s2, r, RES, 2):
                out.append((s3, err(pay(E, s3, r, 1)) if k else None))
        return out
    return [(s, v if v is not None else ok(UNIT)) for s, v in drive(E, st, c, it, act, ())]


@consumer("fold")
def fold(E, st, c, it):
    acc = E.alloc(st, c.args[1])
    fr = E.newref(st, c.args[2])

    def act(s, x):
        out = []
        for s2, r in E.call_closure_ref(s, fr, [s.store[acc], x], c.fr, c.line):
            s2 = s2.copy()
            s2.store[acc] = r
            out.append((s2, None))
        return out
    return [(s, s.store[acc]) for s, _ in drive(E, st, c, it, act, (acc,))]


@consumer("try_fold")
def try_fold(E, st, c, it):
    acc = E.alloc(st, c.args[1])
    fr = E.newref(st, c.args[2])

    def act(s, x):
        out = []
        for s2, r in E.call_closure_ref(s, fr, [s.store[acc], x], c.fr, c.line):
            for s3, k in variants(E, s2, r, RES, 2):
                s3 = s3.copy()
                if k:
                    out.append((s3, err(pay(E, s3, r, 1))))
                else:
                    s3.store[acc] = pay(E, s3, r, 0)
                    out.append((s3, None))
        return out
    return [(s, v if v is not None else ok(s.store[acc])) for s, v in drive(E, st, c, it, act, (acc,))]


def bytemask(E, st, c, f):
    """the set of bytes for which f(byte) is true, or None"""
    m = []
    for b in range(256):
        rs = E.call_value(st.copy(), f, [lint(b)], c.fr, c.line)
        if len(rs) != 1 or rs[0][1].op != "bool":
            return None
        if rs[0][1].a[0]:
            m.append(b)
    return tuple(m)


def charmask(E, st, c, f):
    """as bytemask for a predicate on characters that no character above 0x7f satisfies"""
    m = []
    for b in range(128):
        rs = E.call_value(st.copy(), f, [lchar(chr(b))], c.fr, c.line)
        if len(rs) != 1 or rs[0][1].op != "bool":
            return None
        if rs[0][1].a[0]:
            m.append(b)
    rs = E.call_value(st.copy(), f, [sym("nonascii")], c.fr, c.line)
    if len(rs) != 1 or rs[0][1] is not FALSE:
        return None
    return tuple(m)


def src_text(it):
    if isit(it) and it.a[0][1] == "src" and it.a[2][0].op == "call" and it.a[2][0].a[0] in ("bytes", "chars"):
        return it.a[2][0].a[0], it.a[2][0].a[1][0]
    return None


def membership(E, st, c, it, isall):
    """comparing every element of an unknown collection with one value asks whether the collection contains it"""
    if not isit(it) or it.a[0][1] != "src" or it.a[2][0].op not in ("sym", "fld"):
        return None
    x = sym("#element")
    try:
        s0 = st.copy()
        outs = E.call_closure_ref(s0, E.newref(s0, c.args[1]), [x], c.fr, c.line)
    except NeedSplit:
        return None
    if len(outs) != 1 or len(outs[0][0].facts) != len(st.facts):
        return None
    r = E.full(outs[0][0], outs[0][1])
    if isall:
        r = E.nott(r)
    if r.op != "eq":
        return None
    a, b = r.a
    if b is x:
        a, b = b, a
    if a is not x or contains(b, lambda y: y is x):
        return None
    r = call("slice::contains", it.a[2][0], b)
    return E.nott(r) if isall else r


@consumer("all", "any")
def all_any(E, st, c, it):
    isall = c.cn.endswith("::all")
    t = src_text(it)
    if t is not None:
        try:
            m = (bytemask if t[0] == "bytes" else charmask)(E, st, c, c.args[1])
        except NeedSplit:
            m = None
        if m is not None:
            if not isall:
                m = tuple(sorted(set(range(256)) - set(m)))
                return [(st, E.nott(mk("allbytes", t[1], m)))]
            return [(st, mk("allbytes", t[1], m))]
    m = membership(E, st, c, it, isall)
    if m is not None:
        return [(st, m)]
    fr = E.newref(st, c.args[1])

    def act(s, x):
        out = []
        for s2, r in E.call_closure_ref(s, fr, [x], c.fr, c.line):
            for s3, b in branches(E, s2, r):
                out.append((s3, lbool(not isall) if b != isall else None))
        return out
    return [(s, v if v is not None else lbool(isall)) for s, v in drive(E, st, c, it, act, ())]


@consumer("find", "find_map", "position")
def find(E, st, c, it):
    nm = c.cn.rsplit("::", 1)[1]
    fr = E.newref(st, c.args[1])
    pos = E.alloc(st, lint(0))

    def act(s, x):
        out = []
        for s2, r in E.call_closure_ref(s, fr, [E.newref(s, x) if nm == "find" else x], c.fr, c.line):
            if nm == "find_map":
                for s3, k in variants(E, s2, r, OPT, 2):
                    out.append((s3, some(pay(E, s3, r, 1)) if k else None))
                continue
            for s3, b in branches(E, s2, r):
                if b:
                    out.append((s3, some(x if nm == "find" else s3.store[pos])))
                else:
                    s3 = s3.copy()
                    s3.store[pos] = E.binop(s3, "Add", s3.store[pos], lint(1))
                    out.append((s3, None))
        return out
    return [(s, v if v is not None else NONE) for s, v in drive(E, st, c, it, act, (pos,))]


@consumer("last", "nth", "count")
def last(E, st, c, it):
    nm = c.cn.rsplit("::", 1)[1]
    if nm == "nth":
        n = c.args[1]
        if n.op != "int":
            return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]
        outs, work = [], [(st, it, n.a[0])]
        while work:
            s, v, k = work.pop(0)
            for s2, x, nv in nxt_full(E, s, v, c):
                if x is None or k == 0:
                    s2 = s2.copy()
                    if c.args[0].op == "ref":
                        store(E, s2, c.args[0], nv)
                    outs.append((s2, NONE if x is None else some(x)))
                else:
                    work.append((s2, nv, k - 1))
        return outs
    acc = E.alloc(st, NONE if nm == "last" else lint(0))

    def act(s, x):
        s = s.copy()
        s.store[acc] = some(x) if nm == "last" else E.binop(s, "Add", s.store[acc], lint(1))
        return [(s, None)]
    return [(s, s.store[acc]) for s, _ in drive(E, st, c, it, act, (acc,))]


def push_item(E, s, acc, x, astext):
    s = s.copy()
    cur = s.store[acc]
    if astext:
        s.store[acc] = cat(cur, E.full(s, x))
    else:
        s.store[acc] = E.seqcat(cur, mk("seq", (mk("e", x),)))
    return s


def gather(E, st, c, it, ty):
    """collect into type ty: [(state, value)]"""
    from models import MAPTYPES
    ismap = None
    ty = strip_refs(ty)
    if ty.a[0] == "alias":
        ty = E.normalise(ty)
    if ty.a[0] == "adt" and ty.a[1] in (RES, OPT):
        inner = strip_refs(ty.a[2][0])
        isres = ty.a[1] == RES
        astext = is_str(inner)
        if inner.a[0] == "adt" and inner.a[1] in MAPTYPES:
            ismap = inner.a[1]
        if not astext and not ismap and not (inner.a[0] == "adt" and inner.a[1] in SEQTYPES) and inner.a[:2] != ("tuple", ()):
            return None
        acc = E.alloc(st, lstr("") if astext else mk("seq", ()))
        unit = inner.a[0] == "tuple"

        def act(s, x):
            out = []
            for s2, k in variants(E, s, x, ty.a[1], 2):
                if isres and k == 1:
                    out.append((s2, err(pay(E, s2, x, 1))))
                elif not isres and k == 0:
                    out.append((s2, NONE))
                elif unit:
                    out.append((s2, None))
                else:
                    out.append((push_item(E, s2, acc, pay(E, s2, x, 0 if isres else 1), astext), None))
            return out
        w0 = ok if isres else some
        w = (lambda x: w0(mk("mapof", ismap, x))) if ismap else w0
        return [(s, v if v is not None else w(UNIT if unit else s.store[acc])) for s, v in drive(E, st, c, it, act, (acc,))]
    astext = is_str(ty)
    if not astext and not (ty.a[0] == "adt" and (ty.a[1] in SEQTYPES or ty.a[1] == "alloc::boxed::Box")):
        return None
    acc = E.alloc(st, lstr("") if astext else mk("seq", ()))
    return [(s, s.store[acc]) for s, _ in drive(E, st, c, it, lambda s, x: [(push_item(E, s, acc, x, astext), None)], (acc,))]


@consumer("collect")
def collect(E, st, c, it):
    r = gather(E, st, c, it, c.targs[-1])
    if r is None:
        r = mapgather(E, st, c, it, c.targs[-1])
    if r is None:
        return [(st, call("collect", mk("tyname", c.targs[-1]), E.full(st, it)))]
    return r


def mapgather(E, st, c, it, ty):
    """collect into a map or set: the sequence of what is inserted, in order"""
    from models import MAPTYPES
    ty = strip_refs(ty)
    if ty.a[0] == "alias":
        ty = E.normalise(ty)
    if ty.a[0] != "adt" or ty.a[1] not in MAPTYPES:
        return None
    acc = E.alloc(st, mk("seq", ()))
    return [(s, mk("mapof", ty.a[1], E.full(s, s.store[acc]))) for s, _ in drive(E, st, c, it, lambda s, x: [(push_item(E, s, acc, x, False), None)], (acc,))]


def entries(m):
    """what was inserted into a map, in order"""
    return m.a[1] if m.op == "mapof" else mk("seq", (mk("spread", call("entries", m)),))


def map_models():
    from models import MAPTYPES
    for t in MAPTYPES:
        def ins(E, st, c, t=t):
            if t.endswith("Set") and not E.exact:
                return None
            a = [E.full(st, x) for x in c.args]
            x = a[1] if t.endswith("Set") else tup(a[1], a[2])
            store(E, st, c.args[0], mk("mapof", t, E.seqcat(entries(a[0]), mk("seq", (mk("e", x),)))))
            return [(st, call(c.cn, *a))]
        M[t + "::insert"] = ins

        def new(E, st, c, t=t):
            if t.endswith("Set") and not E.exact:
                return None
            return [(st, mk("mapof", t, mk("seq", ())))]
        M[t + "::new"] = new


@model("core::iter::traits::collect::FromIterator::from_iter")
def from_iter(E, st, c):
    it = of(E, st, c.args[0])
    r = gather(E, st, c, it, c.targs[0]) if it is not None else None
    if r is None:
        return [(st, call("collect", mk("tyname", c.targs[0]), E.full(st, c.args[0])))]
    return r


@model("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::extend_from_slice", "alloc::vec::Vec::append")
def extend(E, st, c):
    astext = is_str(c.targs[0]) if "Extend" in c.cn else False
    tgt = E.deref(st, c.args[0])
    it = of(E, st, c.args[1])
    t = strip_refs(c.targs[0])
    if tgt.op == "mapof" and t.a[0] == "adt" and t.a[1] == tgt.a[0]:
        # inserted one after the other
        other = E.full(st, c.args[1])
        if other.op == "mapof":
            store(E, st, c.args[0], mk("mapof", tgt.a[0], E.seqcat(tgt.a[1], other.a[1])))
            return [(st, UNIT)]
        if it is not None and isit(it):
            acc = E.alloc(st, tgt.a[1])
            out = []
            for s, _ in drive(E, st, c, it, lambda s, x: [(push_item(E, s, acc, x, False), None)], (acc,)):
                s = s.copy()
                store(E, s, c.args[0], mk("mapof", tgt.a[0], E.full(s, s.store[acc])))
                out.append((s, UNIT))
            return out
    if it is None or not isit(it) or not (astext or "Vec" in c.cn or (t.a[0] == "adt" and t.a[1] in SEQTYPES)):
        a = [E.full(st, x) for x in c.args]
        store(E, st, c.args[0], mk("upd", c.cn, 0, a[0], tuple(a[1:])))
        return [(st, UNIT)]
    acc = E.alloc(st, tgt)
    out = []
    for s, _ in drive(E, st, c, it, lambda s, x: [(push_item(E, s, acc, E.deref(s, x) if x.op == "ref" else x, astext), None)], (acc,)):
        s = s.copy()
        store(E, s, c.args[0], s.store[acc])
        out.append((s, UNIT))
    return out


# ------------------------------------------------------------------ Vec
@model("alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def vec_new(E, st, c):
    return [(st, mk("seq", ()))]


def entry_models():
    """values collected per key: map.entry(key).or_default().push(value)"""
    from models import MAPTYPES
    for t in MAPTYPES:
        if t.endswith("Set"):
            continue
        mod = t.rsplit("::", 1)[0]

        def entry(E, st, c, t=t):
            m = E.deref(st, c.args[0])
            if m.op in ("mapof", "lv") and c.args[0].op == "ref":
                return [(st, agg(("entry", t), 0, (c.args[0], E.full(st, c.args[1]))))]
            a = [E.full(st, x) for x in c.args]
            raise Unsupported("entry of the map %s" % show(a[0])[:200])
        M[t + "::entry"] = entry

        def slot(E, st, c, t=t):
            x = E.deref(st, c.args[0])
            if not (x.op == "agg" and x.a[0] == ("entry", t)):
                raise Unsupported("map entry %s" % show(E.full(st, x))[:200])
            if c.cn.endswith("or_default"):
                vs = [(st, mk("seq", ()))]
            elif c.cn.endswith("or_insert"):
                vs = [(st, c.args[1])]
            else:
                vs = E.call_value(st, c.args[1], [], c.fr, c.line)
            out = []
            for s, v in vs:
                v = E.full(s, v)
                if v is not mk("seq", ()):
                    raise Unsupported("map entry starting as %s" % show(v)[:200])
                out.append((s, agg(("slot",), 0, (lstr(t),) + x.a[2])))
            return out
        for e in (t.rsplit("::", 1)[0] + "::entry::Entry", t.rsplit("::", 1)[0] + "::Entry"):
            for n in ("or_default", "or_insert", "or_insert_with"):
                M[e + "::" + n] = slot


def slot_push(E, st, c, x):
    t, m, k = x.a[2]
    cur = E.deref(st, m)
    tag = ("grouped", t.a[0])
    if cur.op == "mapof" and (cur.a[0] == tag or cur.a[1] is mk("seq", ())):
        e = cur.a[1]
    elif cur.op == "lv":
        e = mk("seq", (mk("spread", call("entries", cur)),))
    else:
        raise Unsupported("values per key in %s" % show(E.full(st, cur))[:200])
    store(E, st, m, mk("mapof", tag, E.seqcat(e, mk("seq", (mk("e", tup(k, c.args[1])),)))))
    return [(st, UNIT)]


@model("alloc::vec::Vec::push")
def vec_push(E, st, c):
    x = E.deref(st, c.args[0])
    if x.op == "agg" and x.a[0] == ("slot",):
        return slot_push(E, st, c, x)
    v = E.deref(st, c.args[0])
    store(E, st, c.args[0], E.seqcat(v, mk("seq", (mk("e", c.args[1]),))))
    return [(st, UNIT)]


def listing(E, st, v):
    """a list whose parts depend on conditions: the conditions are decided when there are no other parts"""
    v = E.full(st, v)
    if not E.exact or v.op != "seq" or not any(x.op == "spread" for x in v.a[0]):
        return v

    def plain(v):
        return v.op == "seq" and all(x.op == "e" or x.op == "spread" and (plain(x.a[0]) or x.a[0].op == "phi" and all(plain(y) for _, y in x.a[0].a[0])) for x in v.a[0])

    def flat(v):
        out = []
        for x in v.a[0]:
            if x.op == "e":
                out.append(x)
            else:
                y = E.simp(st, x.a[0])
                if y.op == "phi":
                    raise NeedSplit("phi", y)
                out += flat(y)
        return out
    return mk("seq", tuple(flat(v))) if plain(v) else v


@model("alloc::vec::Vec::len", "slice::len", "core::slice::len")
def vec_len(E, st, c):
    v = listing(E, st, c.args[0])
    if v.op == "phi" and all(E.concrete_items(x) is not None for _, x in v.a[0]):
        raise NeedSplit("phi", v)
    items = E.concrete_items(v)
    if items is not None:
        return [(st, lint(len(items)))]
    return [(st, call("len", v))]


@model("indexmap::map::IndexMap::is_empty", "std::collections::hash::map::HashMap::is_empty", "alloc::collections::btree::map::BTreeMap::is_empty")
def map_is_empty(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "map":
        return [(st, lbool(not v.a[1]))]
    return [(st, call("is_empty", v))]


@model("slice::first", "core::slice::first", "slice::last", "core::slice::last")
def slice_first(E, st, c):
    v = listing(E, st, c.args[0])
    if v.op == "phi" and all(E.concrete_items(x) is not None for _, x in v.a[0]):
        raise NeedSplit("phi", v)
    items = E.concrete_items(v)
    if items is not None:
        return [(st, some(items[0 if c.cn.endswith("first") else -1]) if items else NONE)]
    return [(st, call(c.cn, v))]


@model("alloc::vec::Vec::is_empty", "slice::is_empty")
def vec_is_empty(E, st, c):
    v = listing(E, st, c.args[0])
    if v.op == "phi" and all(E.concrete_items(x) is not None for _, x in v.a[0]):
        raise NeedSplit("phi", v)
    items = E.concrete_items(v)
    if items is not None:
        return [(st, lbool(not items))]
    return [(st, call("is_empty", v))]


@model("slice::concat", "slice::join", "alloc::slice::concat", "alloc::slice::join")
def concat(E, st, c):
    v = E.full(st, c.args[0])
    sep = E.full(st, c.args[1]) if len(c.args) > 1 else lstr("")
    if v.op == "phi":
        raise NeedSplit("phi", v)
    items = E.concrete_items(v)
    if items is not None and all(x.op in ("str", "cat", "sym", "call", "pctenc", "star", "fld") for x in items):
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(sep)
            parts.append(x)
        return [(st, cat(*parts))]
    if v.op == "seq" and sep is lstr(""):
        t = seq_text(v)
        if t is not None:
            return [(st, t)]
    return [(st, call(c.cn, v, sep))]


def seq_text(v):
    """concatenation of a sequence of texts"""
    out = []
    for x in v.a[0]:
        if x.op == "e":
            out.append(x.a[0])
        elif x.op == "star":
            src, b, body = x.a
            if body.op != "seq":
                return None
            t = seq_text(body)
            if t is None:
                return None
            out.append(norm_star(mk("star", src, b, t)))
        else:
            return None
    return cat(*out)


def norm_star(s):
    """the concatenation of the chunks of a percent-encoding is the percent-encoding;
    iterating over a sequence built by another iteration is one iteration"""
    src, b, body = s.a
    if contains(body, lambda x: x.op == "notfirst" and x.a[0] is b):
        return norm_sep(s)
    if src.op == "iter" and body is b and src.a[0].op == "pctenc":
        return src.a[0]
    if src.op == "iter" and src.a[0].op == "call" and src.a[0].a[0] == "chars":
        # every character on its own and put together again
        alone = lambda t: t is b or (t.op == "disp" and t.a[1] is b) or (t.op == "call" and t.a[0] == "char::encode_utf8" and t.a[1][0] is b)
        X = src.a[0].a[1][0]
        if alone(body):
            return X
        if body.op == "pctenc" and alone(body.a[0]):
            return mk("pctenc", X, body.a[1])
    if src.op == "iter" and src.a[0].op == "seq" and all(x.op in ("e", "star", "spread") for x in src.a[0].a[0]):
        istext = None
        for x in ([v for _, v in body.a[0]] if body.op == "phi" else [body]):
            k = "seq" if x.op == "seq" else "text"
            if istext not in (None, k):
                return s
            istext = k
        parts = fuse(src.a[0].a[0], b, body, istext)
        if parts is not None:
            return cat(*parts) if istext == "text" else mk("seq", tuple(parts))
    return s


def norm_sep(s):
    """texts with a separator before all but the first: join<source, binder, text, separator>"""
    src, b, body = s.a
    nf = mk("notfirst", b)
    if body.op != "phi":
        return s
    first, rest = {}, {}
    for g, v in body.a[0]:
        k = [x for a, x in g if a is nf]
        if not k or v.op == "seq":
            return s
        (rest if k[0] else first)[frozenset(x for x in g if x[0] is not nf)] = v
    if set(first) != set(rest):
        return s
    sep = None
    for g, v in first.items():
        w, x = pieces(rest[g]), pieces(v)
        if not w or w[0].op != "str":
            return s
        t = w[0].a[0]
        if x and x[0].op == "str":
            if not t.endswith(x[0].a[0]):
                return s
            p = t[:len(t) - len(x[0].a[0])]
            same = w[1:] == x[1:]
        else:
            p, same = t, w[1:] == x
        if not same or sep not in (None, p):
            return s
        sep = p
    if not sep or any(contains(v, lambda x: x is nf) for v in first.values()):
        return s
    return mk("join", src, b, phi(list(first.items())), lstr(sep))


def join_as_star(t):
    """the same texts, each followed by the separator (which makes no difference before a closing delimiter)"""
    src, b, body, sep = t.a
    return norm_star(mk("star", src, b, phi([(g, cat(v, sep)) for g, v in (body.a[0] if body.op == "phi" else ((frozenset(), body),))])))


def fuse(items, b, body, kind):
    out = []
    for x in items:
        if x.op == "e":
            v = subst(body, {b: x.a[0]})
            if kind == "text":
                out.append(v)
            elif v.op == "seq":
                out.extend(v.a[0])
            else:
                out.append(mk("spread", v))
        elif x.op == "spread":
            out.append(mk("star", mk("iter", x.a[0]), b, body))
        else:
            s2, b2, body2 = x.a
            # a bound variable no inner iteration uses
            n = 1 + max([y.a[0] for y in subterms(body) if y.op == "binder"] + [y.a[0] for y in subterms(body2) if y.op == "binder"] + [-1])
            nb = mk("binder", n)
            body2 = subst(body2, {b2: nb})
            b2 = nb
            alts = body2.a[0] if body2.op == "phi" else ((frozenset(), body2),)
            new = []
            for g, v in alts:
                if v.op != "seq":
                    return None
                inner = fuse(v.a[0], b, body, kind)
                if inner is None:
                    return None
                new.append((g, cat(*inner) if kind == "text" else mk("seq", tuple(inner))))
            t = norm_star(mk("star", s2, b2, phi(new)))
            out.extend(t.a[0] if kind != "text" and t.op == "seq" else (t,))
    return out


@model("core::slice::raw::from_ref", "core::array::from_ref")
def from_ref(E, st, c):
    return [(st, E.newref(st, arr([E.deref(st, c.args[0])])))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def boxvec(E, st, c):
    v = E.deref(st, c.args[0])
    while v.op == "with" and v.a[0].op in ("bottom", "with"):
        v = v.a[3]
        if v.op == "ref":
            v = E.deref(st, v)
    return [(st, v)]


# ------------------------------------------------------------------ serde
def collect_seq(E, st, c):
    isseq = c.cn.endswith("collect_seq")
    it = of(E, st, c.args[1])
    if it is None or not isit(it) or it.a[0][1] != "list" or it.a[2][1] is not lint(0):
        return [(st, call(c.cn.rsplit("::", 1)[1], E.full(st, c.args[0]), E.full(st, c.args[1])))]
    items = E.concrete_items(it.a[2][0])
    c2 = Call(c.cn, [None, c.args[0]], (None, c.targs[0]), c.fr, c.line, c.f, None)
    el = T("model", "elem")
    if isseq:
        ity = None
        return ser_compound(E, st, c2, "serialize_seq", [some(lint(len(items)))], "serde::ser::SerializeSeq", "SerializeSeq", "serialize_element",
                            [[(tref(el), x if x.op == "ref" else E.newref(st, x))] for x in items])
    els = []
    for x in items:
        x = E.deref(st, x)
        if not (x.op == "agg" and x.a[0] == "tuple"):
            return [(st, call("collect_map", E.full(st, c.args[0]), E.full(st, c.args[1])))]
        els.append(("serialize_entry", "serde::ser::SerializeMap", [(tref(el), E.newref(st, y)) for y in x.a[2]]))
    return ser_compound(E, st, c2, "serialize_map", [some(lint(len(items)))], "serde::ser::SerializeMap", "SerializeMap", None, els)


for n in ("serde::ser::Serializer::collect_seq", "serde::ser::Serializer::collect_map"):
    M[n] = collect_seq
    M["default:" + n] = collect_seq

M["core::hint::must_use"] = ident


# ------------------------------------------------------------------ character classes
def cls(name, f):
    def m(E, st, c):
        v = E.full(st, c.args[0])
        if v.op == "char":
            return [(st, lbool(f(v.a[0])))]
        if v.op == "int" and v.a[0] < 128:
            return [(st, lbool(f(chr(v.a[0]))))]
        if v.op == "int" or (v.op == "sym" and v.a[0] == "nonascii"):
            return [(st, lbool(name == "x"))]
        return [(st, call(c.cn, v))]
    for p in ("u8::", "char::", "core::num::", "core::char::methods::"):
        M[p + name] = m


import string as _s
cls("is_ascii_alphanumeric", lambda ch: ch in _s.ascii_letters + _s.digits)
cls("is_ascii_alphabetic", lambda ch: ch in _s.ascii_letters)
cls("is_ascii_digit", lambda ch: ch in _s.digits)
cls("is_ascii_hexdigit", lambda ch: ch in _s.hexdigits)
cls("is_ascii_uppercase", lambda ch: ch in _s.ascii_uppercase)
cls("is_ascii_lowercase", lambda ch: ch in _s.ascii_lowercase)
cls("is_ascii_punctuation", lambda ch: ch in _s.punctuation)
cls("is_ascii_graphic", lambda ch: 33 <= ord(ch) < 127)
cls("is_ascii_control", lambda ch: ord(ch) < 32 or ord(ch) == 127)
cls("is_ascii_whitespace", lambda ch: ch in " \t\n\x0c\r")


@model("u8::is_ascii", "char::is_ascii")
def is_ascii(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "char":
        return [(st, lbool(ord(v.a[0]) < 128))]
    if v.op == "int":
        return [(st, lbool(v.a[0] < 128))]
    if v.op == "sym" and v.a[0] == "nonascii":
        return [(st, FALSE)]
    return [(st, call(c.cn, v))]


map_models()


@consumer("unzip")
def unzip(E, st, c, it):
    a, b = E.alloc(st, mk("seq", ())), E.alloc(st, mk("seq", ()))

    def act(s, x):
        x = E.simp(s, x)
        return [(push_item(E, push_item(E, s, a, fld(x, 0, 0), False), b, fld(x, 0, 1), False), None)]
    return [(s, tup(s.store[a], s.store[b])) for s, _ in drive(E, st, c, it, act, (a, b))]


entry_models()


@model("indexmap::map::IndexMap::contains_key")
def contains_key(E, st, c):
    m, k = E.full(st, c.args[0]), E.full(st, c.args[1])
    if m.op not in ("fld", "sym"):
        return None
    return [(s, lbool(n == 1)) for s, n in variants(E, st, call("indexmap::map::IndexMap::get", m, k), OPT, 2)]
