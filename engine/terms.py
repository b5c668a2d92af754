"""Hash-consed terms: the value domain of the provenance analysis."""


class Term:
    __slots__ = ("op", "a", "_str")

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._str = None

    def __repr__(self):
        return show(self)


_TAB = {}


def mk(op, *a):
    k = (op, a)
    t = _TAB.get(k)
    if t is None:
        t = Term(op, a)
        _TAB[k] = t
    return t


# ---------------------------------------------------------------- literals
def lint(n):
    return mk("int", n)


def lstr(s):
    return mk("str", s)


def lchar(c):
    return mk("char", c)


TRUE = mk("bool", True)
FALSE = mk("bool", False)


def lbool(b):
    return TRUE if b else FALSE


def agg(tag, variant, fields):
    return mk("agg", tag, variant, tuple(fields))


def tup(*f):
    return mk("agg", "tuple", 0, tuple(f))


def arr(fields):
    return mk("agg", "array", 0, tuple(fields))


UNIT = tup()
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
POLL = "core::task::poll::Poll"
ORD = "core::cmp::Ordering"
NONE = agg(OPT, 0, ())


def some(v):
    return agg(OPT, 1, (v,))


def ok(v):
    return agg(RES, 0, (v,))


def err(v):
    return agg(RES, 1, (v,))


def sym(*n):
    return mk("sym", *n)


def call(fn, *args):
    return mk("call", fn, tuple(args))


def is_agg(t, tag=None):
    return t.op == "agg" and (tag is None or t.a[0] == tag)


# ---------------------------------------------------------------- projections
def fld(t, variant, i):
    """field i of variant of t"""
    if t.op == "agg":
        if t.a[1] == variant or variant is None:
            return t.a[2][i] if i < len(t.a[2]) else mk("bottom")
        return mk("bottom")
    if t.op == "with":
        b, v2, i2, val = t.a
        if (v2, i2) == (variant, i):
            return val
        return fld(b, variant, i)
    if t.op == "phi":
        return phi([(g, fld(v, variant, i)) for g, v in t.a[0]])
    if t.op == "bottom":
        return t
    return mk("fld", t, variant, i)


def with_(t, variant, i, v):
    if t.op == "agg" and (t.a[1] == variant or variant is None) and i < len(t.a[2]):
        f = list(t.a[2])
        f[i] = v
        return agg(t.a[0], t.a[1], f)
    if t.op == "phi":
        return phi([(g, with_(x, variant, i, v)) for g, x in t.a[0]])
    return mk("with", t, variant, i, v)


def phi(alts):
    """guarded alternatives: [(frozenset of (atom, value)), term]"""
    alts = [(g, v) for g, v in alts if v.op != "bottom"]
    if not alts:
        return mk("bottom")
    v0 = alts[0][1]
    if all(v is v0 for _, v in alts):
        return v0
    flat = []
    for g, v in alts:
        if v.op == "phi":
            for g2, v2 in v.a[0]:
                m = merge_guard(g, g2)
                if m is not None:
                    flat.append((m, v2))
        else:
            flat.append((g, v))
    if len(flat) == 1:
        return flat[0][1]
    return mk("phi", tuple(flat))


def merge_guard(g1, g2):
    d = dict(g1)
    for k, v in g2:
        if k in d and d[k] != v:
            return None
        d[k] = v
    return frozenset(d.items())


# ---------------------------------------------------------------- strings / sequences
def cat(*parts):
    """string concatenation normal form"""
    out = []
    for p in parts:
        ps = p.a[0] if p.op == "cat" else (p,)
        for x in ps:
            if x.op == "str":
                if x.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = lstr(out[-1].a[0] + x.a[0])
                    continue
            elif x.op == "char":
                x = lstr(x.a[0])
                if out and out[-1].op == "str":
                    out[-1] = lstr(out[-1].a[0] + x.a[0])
                    continue
            out.append(x)
    if not out:
        return lstr("")
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


def pieces(t):
    return list(t.a[0]) if t.op == "cat" else ([] if t.op == "str" and t.a[0] == "" else [t])


# ---------------------------------------------------------------- traversal
def rebuild(t, f):
    """apply f to every direct sub-term, rebuilding in normal form"""
    op = t.op
    if op in ("int", "str", "char", "bool", "float", "bytes", "sym", "lv", "fn", "bottom", "binder"):
        return t

    def m(x):
        if isinstance(x, Term):
            return f(x)
        if isinstance(x, tuple):
            return tuple(m(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(m(y) for y in x)
        return x

    if op == "fld":
        return fld(f(t.a[0]), t.a[1], t.a[2])
    if op == "with":
        return with_(f(t.a[0]), t.a[1], t.a[2], f(t.a[3]))
    if op == "cat":
        return cat(*[f(x) for x in t.a[0]])
    if op == "phi":
        return phi([(m(g), f(v)) for g, v in t.a[0]])
    a = tuple(m(x) for x in t.a)
    if all(x is y for x, y in zip(a, t.a)):
        return t
    return mk(op, *a)


def subst(t, mapping, memo=None):
    if memo is None:
        memo = {}
    r = mapping.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is None:
        r = rebuild(t, lambda x: subst(x, mapping, memo))
        memo[t] = r
    return r


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if pred(t):
        memo[t] = True
        return True
    memo[t] = False

    def w(x):
        if isinstance(x, Term):
            return contains(x, pred, memo)
        if isinstance(x, (tuple, frozenset)):
            return any(w(y) for y in x)
        return False

    r = any(w(x) for x in t.a)
    memo[t] = r
    return r


def subterms(t, out=None):
    if out is None:
        out = {}
    if t in out:
        return out
    out[t] = 1

    def w(x):
        if isinstance(x, Term):
            subterms(x, out)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                w(y)

    for x in t.a:
        w(x)
    return out


# ---------------------------------------------------------------- printing
BUDGET = [0]


def show(t, depth=0):
    if depth == 0:
        BUDGET[0] = 4000
    BUDGET[0] -= 1
    if BUDGET[0] < 0:
        return "..."
    if not isinstance(t, Term):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return repr(t)
    if depth > 24:
        return "..."
    op = t.op
    d = depth + 1
    if op in ("int", "float"):
        return str(t.a[0])
    if op in ("str", "char"):
        return repr(t.a[0])
    if op == "bool":
        return str(t.a[0]).lower()
    if op == "sym":
        return "$" + ".".join(str(x) for x in t.a)
    if op == "agg":
        tag, v, f = t.a
        if tag == "tuple":
            return "(" + ", ".join(show(x, d) for x in f) + ")"
        if tag == "array":
            return "[" + ", ".join(show(x, d) for x in f) + "]"
        nm = tag if isinstance(tag, str) else str(tag)
        nm = nm.split("::")[-1] if isinstance(tag, str) else nm
        if tag == OPT:
            return "None" if v == 0 else "Some(%s)" % show(f[0], d)
        if tag == RES:
            return ("Ok(%s)" if v == 0 else "Err(%s)") % show(f[0], d)
        return "%s#%s(%s)" % (nm, v, ", ".join(show(x, d) for x in f))
    if op == "fld":
        return "%s.%s%s" % (show(t.a[0], d), "" if t.a[1] is None else "<%s>" % t.a[1], t.a[2])
    if op == "call":
        fn = t.a[0]
        return "%s(%s)" % (fn if isinstance(fn, str) else show(fn, d), ", ".join(show(x, d) for x in t.a[1]))
    if op == "cat":
        return "cat{" + " ++ ".join(show(x, d) for x in t.a[0]) + "}"
    if op == "phi":
        return "phi{" + " | ".join("%s -> %s" % (sorted((show(a, d), v) for a, v in g), show(v, d)) for g, v in t.a[0]) + "}"
    return "%s<%s>" % (op, ", ".join(show(x, d) for x in t.a))
