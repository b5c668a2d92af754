"""Value-provenance analysis over built MIR.

An abstract interpretation whose domain is (partition of control facts) x
(store: abstract location -> provenance term). Control splits on what is not
statically known create partitions labelled by facts; partitions are merged
into guarded values at joins once there are more than `maxstates`; loops are
first unrolled while they stay decided and otherwise generalised to a fixpoint
(changed locations become loop variables) and closed into star/chain terms.
Nothing is executed and no path condition is ever given to a solver.
"""
import sys
from terms import *

sys.setrecursionlimit(200000)


class NeedSplit(Exception):
    """an operation needs a guarded value or a condition decided"""

    def __init__(self, kind, term, values=None):
        self.kind, self.term, self.values = kind, term, values


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("store", "facts", "ev")

    def __init__(self, store=None, facts=None, ev=()):
        self.store = {} if store is None else store
        self.facts = {} if facts is None else facts
        self.ev = ev

    def copy(self):
        return St(dict(self.store), dict(self.facts), self.ev)


class Frame:
    __slots__ = ("id", "bid", "body", "targs")

    def __init__(self, id, bid, body, targs):
        self.id, self.bid, self.body, self.targs = id, bid, body, targs


class Call:
    __slots__ = ("cn", "args", "targs", "fr", "line", "f", "argtys", "st")

    def __init__(self, cn, args, targs, fr, line, f, argtys):
        self.cn, self.args, self.targs, self.fr, self.line, self.f, self.argtys = cn, args, targs, fr, line, f, argtys


# ------------------------------------------------------------------ types
def T(kind, *a):
    return mk("T", kind, *a)


def tref(t):
    return T("ref", t, False)


INT_RANGES = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGES["u%d" % _b] = (0, 2 ** _b - 1)
    INT_RANGES["i%d" % _b] = (-(2 ** (_b - 1)), 2 ** (_b - 1) - 1)
INT_RANGES["usize"] = INT_RANGES["u64"]
INT_RANGES["isize"] = INT_RANGES["i64"]


def strip_refs(t):
    while t.op == "T" and t.a[0] == "ref":
        t = t.a[1]
    return t


def has_opaque(v):
    """does an evaluated constant contain a part the driver could not show"""
    if isinstance(v, dict):
        return v.get("k") in ("opaque", "deep") or any(has_opaque(x) for x in v.values())
    if isinstance(v, list):
        return any(has_opaque(x) for x in v)
    return False


def tail_calls_to_loops(bid, b, identity):
    """rewrite `return f(args)` inside f as `params = args; goto start`"""
    blocks = b["blocks"]

    def returns(t, d):
        """following block t, is place d returned with nothing else done"""
        seen = set()
        while t is not None and t not in seen:
            seen.add(t)
            blk = blocks[t]
            for s in blk["s"]:
                if s[0] in ("dead", "live", "nop"):
                    continue
                if s[0] == "=" and s[1] == [0, []] and s[2][0] == "use" and s[2][1][0] in ("mv", "cp") and s[2][1][1] == d:
                    d = [0, []]
                    continue
                return False
            k = blk["t"][0]
            if k == "ret":
                return d == [0, []]
            if k == "goto":
                t = blk["t"][1]
            elif k == "drop":
                t = blk["t"][2]
            else:
                return False
        return False

    todo = []
    for i, blk in enumerate(blocks):
        t = blk["t"]
        if t[0] != "call" or blk.get("c") or t[1][0] != "k" or t[1][1].get("k") != "fn":
            continue
        f = t[1][1]["f"]
        rid = f.get("res", f).get("id") if "tr" in f else f["id"]
        if rid != bid or len(t[2]) != b["argc"] or not identity(f.get("res", f)["a"] if "tr" in f else f["a"]):
            continue
        if t[4] is None or not returns(t[4], t[3]):
            continue
        todo.append(i)
    if not todo or b.get("async"):
        return b
    b = dict(b)
    b["locals"] = list(b["locals"])
    b["blocks"] = blocks = [dict(x) for x in blocks]
    # the loop head must not be the entry block: entry jumps to a copy of block 0
    n = len(blocks)
    blocks.append(dict(blocks[0]))
    blocks[0] = {"s": [], "t": ["goto", n], "l": blocks[n].get("l", 0), "c": False}
    for i in todo:
        i2 = n if i == 0 else i
        t = blocks[i2]["t"]
        line = t[5] if len(t) > 5 else 0
        ss = list(blocks[i2]["s"])
        tmps = []
        for j, a in enumerate(t[2]):
            b["locals"].append(b["locals"][j + 1])
            tmps.append(len(b["locals"]) - 1)
            ss.append(["=", [tmps[-1], []], ["use", a], line])
        for j, x in enumerate(tmps):
            ss.append(["=", [j + 1, []], ["use", ["mv", [x, []]]], line])
        blocks[i2]["s"] = ss
        blocks[i2]["t"] = ["goto", n]
    return b


class Engine:
    def __init__(self, facts, maxstates=64):
        self.d = facts
        self.maxstates = maxstates
        self.mmemo, self.morder = {}, {}
        self.quant = False  # does leaving a loop at its end tell what held of every element?
        self.exact = False  # do states remember what they were joined from?
        self.domains = {}
        self.adts = facts["adts"]
        self._ty = {}
        self.d = facts
        self.written = facts["bodies"]  # before tail calls became loops
        self.bodies = {k: tail_calls_to_loops(k, b, self.identity_args) for k, b in facts["bodies"].items()}
        self._frame = 0
        self._heap = 0
        self._lid = 0
        self.stack = []
        self.panics = []
        self.shadows = set()
        self.recursions = []
        self.active = []
        self.unmodelled = {}
        self.visited_bodies = {}
        self.calls_seen = 0
        self.models = {}
        self.pmodels = []
        self.maxdepth = 80
        self.inline_limit = 2
        self.opaque_bodies = set()
        self._cfg = {}
        self.fnrefs = {}
        self.loops_summarised = 0
        self.loop_steps = []
        self.notes = []
        self.impls = []
        for im in facts["impls"]:
            self.impls.append(dict(
                id=im["id"], trait=im.get("trait"),
                targs=[None if x is None else self.ty(x) for x in im.get("targs", [])],
                self=self.ty(im["self"]), items=dict(im["items"]),
                types={k: self.ty(v) for k, v in im["types"]}, n=len(im["generics"]), preds=im["preds"]))
        self.traits = {t["path"]: {i[0]: (i[1], i[2]) for i in t["items"]} for t in facts["traits"]}
        import models
        import iters
        import quote_models
        models.install(self)

    # -------------------------------------------------------------- types
    def identity_args(self, a):
        """are these generic arguments the enclosing item's own parameters"""
        ts = [None if x is None else self.ty(x) for x in a]
        return all(t is None or (t.a[0] == "param" and t.a[1] == i) for i, t in enumerate(ts))

    def ty(self, i):
        r = self._ty.get(i)
        if r is not None:
            return r
        j = self.d["types"][i]
        k = j["k"]
        if k in ("bool", "char", "str", "never"):
            r = T("prim", k)
        elif k in ("int", "uint", "float"):
            r = T("prim", j["n"])
        elif k == "adt":
            r = T("adt", j["p"], self.targs(j["a"]))
        elif k == "array":
            r = T("array", self.ty(j["t"]), j["n"])
        elif k == "slice":
            r = T("slice", self.ty(j["t"]))
        elif k == "ref":
            r = T("ref", self.ty(j["t"]), j["m"])
        elif k == "ptr":
            r = T("ref", self.ty(j["t"]), j["m"])
        elif k == "fndef":
            r = T("fndef", self.fnkey(j["f"]), self.targs(j["f"]["a"]))
        elif k == "dyn":
            r = T("dyn", tuple(j["p"]))
        elif k in ("closure", "coroutine"):
            r = T(k, j["id"], self.targs(j["a"]))
        elif k == "tuple":
            r = T("tuple", self.targs(j["a"]))
        elif k == "alias":
            r = T("alias", j["p"], j.get("tr"), j.get("nm"), self.targs(j["a"]))
        elif k == "param":
            r = T("param", j["i"], j["n"])
        else:
            r = T("other", j["s"])
        self._ty[i] = r
        return r

    def targs(self, l):
        out = []
        for x in l:
            if x is None:
                out.append(None)
            elif isinstance(x, dict):
                out.append(T("const", x["c"]))
            else:
                out.append(self.ty(x))
        return tuple(out)

    def fnkey(self, f):
        k = f["id"]
        self.fnrefs.setdefault(k, f)
        return k

    def sub(self, t, targs):
        """substitute generic parameters"""
        if t is None or not targs:
            return t
        if t.op != "T":
            return t
        k = t.a[0]
        if k == "param":
            i = t.a[1]
            if i < len(targs) and targs[i] is not None:
                return targs[i]
            return t
        if k in ("prim", "dyn", "other", "const", "model"):
            return t

        def s(x):
            if isinstance(x, Term):
                return self.sub(x, targs)
            if isinstance(x, tuple):
                return tuple(s(y) for y in x)
            return x

        r = mk("T", k, *[s(x) for x in t.a[1:]])
        if k == "alias":
            r = self.normalise(r)
        return r

    def normalise(self, t):
        if t.a[0] != "alias" or t.a[2] is None:
            return t
        _, p, tr, nm, args = t.a
        if tr == "core::ops::deref::Deref" and nm == "Target":
            st = args[0]
            if st.a[0] == "ref":
                return st.a[1]
        for im, b in self.find_impls(tr, args):
            if nm in im["types"]:
                return self.sub(im["types"][nm], b)
        return t

    def unify(self, pat, t, b):
        if pat is None or t is None:
            return True
        if pat.op != "T" or t.op != "T":
            return pat is t
        k = pat.a[0]
        if k == "param":
            i = pat.a[1]
            if i in b:
                return b[i] is t
            b[i] = t
            return True
        if t.a[0] == "alias":
            t = self.normalise(t)
        if k != t.a[0]:
            return False
        if len(pat.a) != len(t.a):
            return False
        for x, y in zip(pat.a[1:], t.a[1:]):
            if isinstance(x, Term) and isinstance(y, Term):
                if not self.unify(x, y, b):
                    return False
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return False
                for p, q in zip(x, y):
                    if isinstance(p, Term) and isinstance(q, Term):
                        if not self.unify(p, q, b):
                            return False
                    elif p is not None and q is not None and p != q:
                        return False
            elif k == "ref" and isinstance(x, bool):
                if x != y:
                    return False
            elif x != y:
                return False
        return True

    def find_impls(self, tr, targs):
        """local impls of trait tr matching, most specific first"""
        res = []
        for im in self.impls:
            if im["trait"] != tr:
                continue
            b = {}
            pats = im["targs"]
            if len(targs) < len(pats):
                continue
            if all(self.unify(p, t, b) for p, t in zip(pats, targs)):
                tl = tuple(b.get(i) for i in range(im["n"]))
                # specificity: how much concrete structure the pattern has
                spec = sum(len(subterms(p)) - sum(2 for s in subterms(p) if s.op == "T" and s.a[0] == "param") for p in pats if p)
                res.append((-spec, len(res), im, tl))
        res.sort(key=lambda x: x[:2])
        return [(im, tl) for _, _, im, tl in res]

    # -------------------------------------------------------------- state helpers
    def alloc(self, st, v):
        self._heap += 1
        l = ("H", self._heap)
        st.store[l] = v
        return l

    def newref(self, st, v):
        return mk("ref", self.alloc(st, v), ())

    def consistent(self, st, g):
        f = st.facts
        for a, v in g:
            if a in f:
                if f[a] != v:
                    return False
            else:
                r = self.known(st, a)
                if r is not None and r != v:
                    return False
        if self.exact:
            d = {a: v for a, v in g if a.op != "anyof"}
            if any(a.op == "anyof" for a in f) or any(a.op == "anyof" for a, v in g):
                d.update((a, v) for a, v in f.items() if a.op != "anyof")
                if self.pathcond(d, [*f.items(), *g]) is FALSE:
                    return False
        return True

    # ---- conditions: decision diagrams over the atoms, so that equal conditions are one term
    def mnode(self, a, kids, default):
        dom = self.domains.get(a)
        if dom is None:
            kids = {v: k for v, k in kids.items() if k is not default}
            if not kids:
                return default
            return mk("mdd", a, tuple(sorted(kids.items(), key=str)) + (("*", default),))
        full = tuple((v, kids.get(v, default)) for v in dom)
        if all(k is full[0][1] for _, k in full):
            return full[0][1]
        return mk("mdd", a, full)

    def mkids(self, n, a):
        """children of n at atom a: (by value, other values)"""
        if n.op != "mdd" or n.a[0] is not a:
            return {}, n
        k = dict(n.a[1])
        return k, k.pop("*", FALSE)

    def mop(self, conj, f, g):
        top, bot = (FALSE, TRUE) if conj else (TRUE, FALSE)
        if f is top or g is top:
            return top
        if f is bot or f is g:
            return g
        if g is bot:
            return f
        key = (conj, f, g)
        r = self.mmemo.get(key)
        if r is None:
            a = min((f.a[0], g.a[0]), key=self.morder.get)
            (kf, df), (kg, dg) = self.mkids(f, a), self.mkids(g, a)
            ks = {v: self.mop(conj, kf.get(v, df), kg.get(v, dg)) for v in [*kf, *kg]}
            r = self.mmemo[key] = self.mnode(a, ks, self.mop(conj, df, dg))
        return r

    def mneg(self, f):
        if f.op == "bool":
            return FALSE if f.a[0] else TRUE
        r = self.mmemo.get(f)
        if r is None:
            k, d = self.mkids(f, f.a[0])
            r = self.mmemo[f] = self.mnode(f.a[0], {v: self.mneg(x) for v, x in k.items()}, self.mneg(d))
        return r

    def mlit(self, a, v):
        if a.op == "anyof":
            return a.a[0] if v else self.mneg(a.a[0])
        self.morder.setdefault(a, len(self.morder))
        return self.mnode(a, {v: TRUE}, FALSE)

    def mguard(self, g):
        r = TRUE
        for a, v in g:
            r = self.mop(True, r, self.mlit(a, v))
        return r

    def mrestrict(self, n, d, memo=None):
        """the condition when the facts d are known"""
        if n.op != "mdd":
            return n
        memo = {} if memo is None else memo
        r = memo.get(n)
        if r is None:
            k, o = self.mkids(n, n.a[0])
            if n.a[0] in d:
                r = self.mrestrict(k.get(d[n.a[0]], o), d, memo)
            else:
                r = self.mnode(n.a[0], {v: self.mrestrict(x, d, memo) for v, x in k.items()}, self.mrestrict(o, d, memo))
            memo[n] = r
        return r

    def pathcond(self, d, facts):
        """all the conditions among the facts, knowing d"""
        r, memo = TRUE, {}
        for a, v in facts:
            if a.op == "anyof":
                x = self.mrestrict(a.a[0], d, memo)
                r = self.mop(True, r, x if v else self.mneg(x))
        return r

    def asguard(self, n):
        """the guard that is the condition n (None if it cannot hold)"""
        if n is FALSE:
            return None
        g = []
        while n.op == "mdd":
            k, o = self.mkids(n, n.a[0])
            live = [(v, x) for v, x in k.items() if x is not FALSE]
            if len(live) != 1 or o is not FALSE:
                # of a condition and its negation, the same one is the atom
                x = n
                while x.op == "mdd":
                    x = x.a[1][0][1]
                g.append((mk("anyof", n), True) if x is TRUE else (mk("anyof", self.mneg(n)), False))
                break
            g.append((n.a[0], live[0][0]))
            n = live[0][1]
        return frozenset(g)

    def anyguard(self, gs):
        """a guard that holds when one of the given ones does"""
        r = FALSE
        for g in gs:
            r = self.mop(False, r, self.mguard(g))
        return self.asguard(r)

    def known(self, st, a):
        """decide atom a under facts, or None"""
        f = st.facts
        if a in f:
            return f[a]
        if a.op == "not":
            r = self.known(st, a.a[0])
            return None if r is None else (not r)
        if a.op == "bool":
            return a.a[0]
        if a.op == "ieq":
            t, n = a.a
            for b, v in f.items():
                if b.op == "ieq" and b.a[0] is t and v is True and b.a[1] is not n:
                    return False
        if a.op == "var" and a.a[0].op == "agg":
            return a.a[0].a[1]
        if a.op == "anyof":
            d = {b: v for b, v in f.items() if b.op != "anyof"}
            n, pc = self.mrestrict(a.a[0], d), self.pathcond(d, f.items())
            if self.mop(True, pc, n) is FALSE:
                return False
            if self.mop(True, pc, self.mneg(n)) is FALSE:
                return True
        return None

    def simp(self, st, v):
        """drop guarded alternatives contradicted by the facts"""
        if v.op == "phi":
            alts = [(g, x) for g, x in v.a[0] if self.consistent(st, g)]
            if len(alts) == len(v.a[0]):
                return v
            if len(alts) == 1:
                return self.simp(st, alts[0][1])
            return phi(alts)
        return v

    def assume(self, st, guard):
        s = st.copy()
        for a, v in guard:
            if a in s.facts and s.facts[a] != v:
                return None
            s.facts[a] = v
        return s

    def split(self, st, e):
        """states for a NeedSplit"""
        out = []
        if e.kind == "phi":
            for g, _ in e.term.a[0]:
                if self.consistent(st, g):
                    s = self.assume(st, g)
                    if s is not None:
                        out.append(s)
        elif e.kind == "atom":
            self.domains[e.term] = tuple(e.values)
            for v in e.values:
                if self.consistent(st, ((e.term, v),)):
                    out.append(self.assume(st, ((e.term, v),)))
        return out

    def decided(self, st, atom, values):
        r = self.known(st, atom)
        if r is not None:
            return r
        raise NeedSplit("atom", atom, values)

    def truth(self, st, b):
        b = self.simp(st, b)
        if b.op == "bool":
            return b.a[0]
        if b.op == "phi":
            raise NeedSplit("phi", b)
        if b.op == "not":
            return not self.truth(st, b.a[0])
        if b.op == "and":
            return self.truth(st, b.a[0]) and self.truth(st, b.a[1])
        if b.op == "or":
            return self.truth(st, b.a[0]) or self.truth(st, b.a[1])
        b = self.full(st, b)
        if b.op == "bool":
            return b.a[0]
        return self.decided(st, b, (True, False))

    def nvariants(self, adt):
        a = self.adts.get(adt)
        return len(a["variants"]) if a else None

    def variant(self, st, v, adt, n=None):
        """decide the variant of enum value v"""
        v = self.deref(st, v)
        if v.op == "agg":
            return v.a[1]
        if v.op == "phi":
            raise NeedSplit("phi", v)
        v = self.full(st, v)
        if v.op == "agg":
            return v.a[1]
        v2 = self.eta(v)
        if v2 is not v and v2.op == "agg":
            return v2.a[1]
        n = n or self.nvariants(adt)
        return self.decided(st, mk("var", v), tuple(range(n)))

    def eta(self, v):
        return v

    def opt(self, st, v):
        """None / payload of an Option value"""
        if self.variant(st, v, OPT, 2) == 0:
            return None
        return fld(self.deref(st, v), 1, 0)

    def read(self, st, loc, path=()):
        v = st.store.get(loc)
        if v is None:
            return mk("bottom")
        v = self.simp(st, v)
        for var, i in path:
            if v.op == "ref":
                v = self.deref(st, v)
            v = self.simp(st, fld(v, var, i) if isinstance(i, int) else self.elem(st, v, i))
        return v

    def elem(self, st, v, i):
        """i is ('ix', term) or ('cix', off, from_end) or ('sub', from, to, from_end)"""
        if v.op == "phi":
            raise NeedSplit("phi", v)
        items = self.concrete_items(v)
        if i[0] == "ix":
            n = self.simp(st, i[1])
            if items is not None and n.op == "int" and n.a[0] < len(items):
                return items[n.a[0]]
            return mk("index", v, n)
        if i[0] == "cix":
            if items is not None:
                k = i[1] if not i[2] else len(items) - i[1]
                if 0 <= k < len(items):
                    return items[k]
                return mk("bottom")
            return mk("index", v, lint(-i[1] if i[2] else i[1]))
        if i[0] == "sub":
            if items is not None:
                return arr(items[i[1]:(len(items) - i[2]) if i[3] else i[2]])
            return mk("subslice", v, i[1], i[2], i[3])
        raise Unsupported("elem")

    def concrete_items(self, v):
        if v.op == "agg" and v.a[0] == "array":
            return list(v.a[2])
        if v.op == "seq" and all(x.op == "e" for x in v.a[0]):
            return [x.a[0] for x in v.a[0]]
        if v.op == "bytes":
            return [lint(x) for x in v.a[0]]
        return None

    def write(self, st, loc, path, v):
        if loc in self.shadows:
            raise Unsupported("a write through a reference to %s" % show(self.full(st, st.store.get(loc, UNIT)))[:200])
        if not path:
            st.store[loc] = v
            return
        st.store[loc] = self._wr(st, st.store.get(loc, mk("bottom")), path, v)

    def _wr(self, st, base, path, v):
        base = self.simp(st, base)
        if base.op == "ref":
            self.write(st, base.a[0], base.a[1] + path, v)
            return base
        (var, i), rest = path[0], path[1:]
        if base.op == "phi":
            raise NeedSplit("phi", base)
        if not isinstance(i, int):
            items = self.concrete_items(base)
            k = None
            if i[0] == "ix":
                n = self.simp(st, i[1])
                k = n.a[0] if n.op == "int" else None
            if items is None or k is None or k >= len(items):
                return mk("upd", "index_set", 0, base, (v,))
            x = self._wr(st, items[k], rest, v) if rest else v
            items[k] = x
            if base.op == "agg":
                return arr(items)
            return mk("seq", tuple(mk("e", y) for y in items))
        if base.op == "bottom":
            # partially initialised aggregate
            x = self._wr(st, mk("bottom"), rest, v) if rest else v
            return mk("with", mk("bottom"), var, i, x)
        x = self._wr(st, fld(base, var, i), rest, v) if rest else v
        return with_(base, var, i, x)

    def deref(self, st, v):
        v = self.simp(st, v)
        while v.op == "ref":
            v = self.read(st, v.a[0], v.a[1])
        return v

    def full(self, st, v, memo=None):
        """snapshot: resolve references to the values they refer to"""
        if memo is None:
            memo = {}
        r = memo.get(v)
        if r is not None:
            return r
        memo[v] = v
        if v.op == "ref":
            r = self.full(st, self.read(st, v.a[0], v.a[1]), memo)
        elif v.op == "phi":
            x = self.simp(st, v)
            if x is not v:
                r = self.full(st, x, memo)
            else:
                r = phi([(g, self.full(st, y, memo)) for g, y in v.a[0]])
        else:
            r = rebuild(v, lambda x: self.full(st, x, memo))
            if r.op == "ref":
                r = self.full(st, r, memo)
        memo[v] = r
        return r

    # -------------------------------------------------------------- places
    def place_ty(self, fr, pl):
        t = self.sub(self.ty(fr.body["locals"][pl[0]]), fr.targs)
        for e in pl[1]:
            if e == "*":
                t = self.deref_ty(t)
            elif e[0] == "f":
                t = self.sub(self.ty(e[2]), fr.targs)
            elif e[0] in ("i", "ci"):
                if t.a[0] in ("array", "slice"):
                    t = t.a[1]
                else:
                    t = T("other", "elem")
        return t

    def deref_ty(self, t):
        if t.a[0] == "ref":
            return t.a[1]
        if t.a[0] == "adt" and t.a[1] in ("alloc::boxed::Box",):
            return t.a[2][0]
        return T("other", "deref")

    def place(self, st, fr, pl):
        loc, path = ("L", fr.id, pl[0]), ()
        var = None
        for e in pl[1]:
            if e == "*":
                v = self.read(st, loc, path)
                while v.op == "ref" and False:
                    pass
                if v.op == "ref":
                    loc, path = v.a[0], v.a[1]
                elif v.op == "phi":
                    if any(x.op == "ref" for _, x in v.a[0]):
                        raise NeedSplit("phi", v)
                    loc, path = self.alloc(st, v), ()
                    self.shadows.add(loc)
                else:
                    # opaque or boxed value: references are transparent (for reading)
                    loc, path = self.alloc(st, v), ()
                    self.shadows.add(loc)
                var = None
            elif e[0] == "f":
                path = path + ((0 if var is None else var, e[1]),)
                var = None
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "i":
                path = path + ((None, ("ix", self.read(st, ("L", fr.id, e[1])))),)
            elif e[0] == "ci":
                path = path + ((None, ("cix", e[1], e[2])),)
            elif e[0] == "sub":
                path = path + ((None, ("sub", e[1], e[2], e[3])),)
            else:
                raise Unsupported("projection %r" % (e,))
        return loc, self.fixpath(st, loc, path)

    def fixpath(self, st, loc, path):
        # struct fields carry variant None; use 0 for uniformity
        return tuple((0 if (v is None and isinstance(i, int)) else v, i) for v, i in path)

    def read_place(self, st, fr, pl):
        loc, path = self.place(st, fr, pl)
        return self.read(st, loc, path)

    # -------------------------------------------------------------- constants / operands
    def const(self, st, fr, c):
        k = c["k"]
        if k == "fn":
            f = c["f"]
            key = self.fnkey(f)
            ta = tuple(self.sub(x, fr.targs) if x is not None else None for x in self.targs(f["a"]))
            return mk("fn", key, ta)
        if k == "named":
            return self.named(st, fr, c)
        return self.cval(st, fr, c, self.ty(c["t"]) if "t" in c else None)

    def named(self, st, fr, c):
        m = self.models.get("const:" + c["id"])
        if m:
            return m(self, st, c)
        if "v" in c and c["v"]["k"] not in ("opaque", "deep") and not (c["id"] in self.bodies and has_opaque(c["v"])):
            return self.cval(st, fr, c["v"], self.ty(c["t"]))
        # a local constant of a generic type, or one the evaluator cannot show
        bid = c["id"]
        ta = tuple(self.sub(x, fr.targs) if x is not None else None for x in self.targs(c["a"]))
        if "tr" in c and ta:
            for im, b in self.find_impls(c["tr"], ta):
                if c.get("nm") in im["items"]:
                    bid, ta = im["items"][c["nm"]], b
                    break
        if bid in self.bodies and bid not in self.stack:
            try:
                rs = self.run_body(st, bid, ta, [])
            except NeedSplit:
                rs = []
            if len(rs) == 1:
                st.store.update(rs[0][0].store)
                return rs[0][1]
        return mk("constant", c["id"])

    def cval(self, st, fr, c, t):
        k = c["k"]
        if k == "lit":
            v = c["v"]
            if isinstance(v, bool):
                return lbool(v)
            if isinstance(v, int):
                return lint(v)
            if isinstance(v, dict):
                return lchar(v["ch"])
            if t is not None and t.a[0] == "prim" and t.a[1].startswith("f"):
                return mk("float", v)
            return lint(int(v))
        if k == "str":
            return lstr(c["v"])
        if k == "bytes":
            return mk("bytes", tuple(c["v"]))
        if k == "ref":
            return self.newref(st, self.cval(st, fr, c["v"], t.a[1] if t is not None and t.a[0] == "ref" else None))
        if k == "zst":
            if t is not None:
                if t.a[0] == "adt":
                    return agg(t.a[1], 0, ())
                if t.a[0] == "tuple":
                    return UNIT
                if t.a[0] == "closure":
                    return agg(("closure", t.a[1], t.a[2]), 0, ())
            return UNIT
        if k == "agg":
            fs = [self.cval(st, fr, x, self.ty(ti)) for x, ti in c["f"]]
            if t is None:
                return agg("?", c["var"] or 0, fs)
            if t.a[0] == "tuple":
                return tup(*fs)
            if t.a[0] in ("array", "slice"):
                if fs and all(x.op == "int" for x in fs) and t.a[1].a[:2] == ("prim", "u8"):
                    return mk("bytes", tuple(x.a[0] for x in fs))
                return arr(fs)
            if t.a[0] == "adt":
                if t.a[1] == "http::header::name::HeaderName":
                    n = self.header_name(fs)
                    if n is not None:
                        return mk("hname", n)
                return agg(t.a[1], c["var"] or 0, fs)
            return agg("?", c["var"] or 0, fs)
        if k == "tyconst":
            ct = self.ty(c["t"]) if "t" in c else None
            s = c["s"]
            # const generic parameter
            for i, n in enumerate(fr.body["generics"]):
                if n == s and i < len(fr.targs) and fr.targs[i] is not None and fr.targs[i].a[0] == "const":
                    x = fr.targs[i].a[1].split("_")[0]
                    if x.isdigit():
                        return lint(int(x))
            head = s.split(" is ")[0]
            if " is " in s and head.isdigit():
                return lint(int(head))
            if s.isdigit():
                return lint(int(s))
            return mk("constant", s)
        return mk("constant", repr(sorted((a, str(b)) for a, b in c.items())))

    def header_name(self, fs):
        """text of a standard header name constant"""
        v = fs[0]
        while v.op == "agg" and v.a[2]:
            v = v.a[2][0]
        if v.op == "agg" and v.a[0] == "http::header::name::StandardHeader":
            n = self.adts[v.a[0]]["variants"][v.a[1]]["name"]
            out = ""
            for i, ch in enumerate(n):
                if ch.isupper() and i and not n[i - 1].isupper():
                    out += "-"
                out += ch.lower()
            return out
        return None

    def operand(self, st, fr, o):
        if o[0] in ("cp", "mv"):
            return self.read_place(st, fr, o[1])
        if o[0] == "k":
            return self.const(st, fr, o[1])
        return mk("constant", "runtime_checks")

    def operand_ty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return self.place_ty(fr, o[1])
        c = o[1]
        if "t" in c:
            return self.sub(self.ty(c["t"]), fr.targs)
        return T("other", "const")

    # -------------------------------------------------------------- rvalues
    def eqterm(self, a, b):
        if a is b and a.op in ("int", "bool", "char", "str", "bytes"):
            return TRUE
        if a.op == b.op and a.op in ("int", "bool", "char", "str", "bytes"):
            return lbool(a is b)
        if b.op == "bool":
            return a if b.a[0] else self.nott(a)
        if a.op == "bool":
            return b if a.a[0] else self.nott(b)
        if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
            if a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
                return FALSE
            r = TRUE
            for x, y in zip(a.a[2], b.a[2]):
                r = self.andt(r, self.eqterm(x, y))
            return r
        lit = ("int", "char", "str", "bytes", "agg")
        if b.op == "agg" and not b.a[2] and b.a[0] in self.adts and self.adts[b.a[0]]["kind"] == "enum":
            return mk("isvar", a, b.a[1], b.a[0])
        if a.op == "agg" and not a.a[2] and a.a[0] in self.adts and self.adts[a.a[0]]["kind"] == "enum":
            return mk("isvar", b, a.a[1], a.a[0])
        if b.op in ("int", "char", "str", "bytes"):
            return mk("ieq", a, b)
        if a.op in ("int", "char", "str", "bytes"):
            return mk("ieq", b, a)
        if show(a) > show(b):
            a, b = b, a
        return mk("eq", a, b)

    def nott(self, b):
        if b.op == "bool":
            return lbool(not b.a[0])
        if b.op == "not":
            return b.a[0]
        return mk("not", b)

    def andt(self, a, b):
        if a is FALSE or b is FALSE:
            return FALSE
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        return mk("and", a, b)

    def ort(self, a, b):
        if a is TRUE or b is TRUE:
            return TRUE
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        return mk("or", a, b)

    def binop(self, st, op, a, b, ta=None):
        a, b = self.full(st, a), self.full(st, b)
        if a.op == "phi":
            raise NeedSplit("phi", a)
        if b.op == "phi":
            raise NeedSplit("phi", b)
        wo = op.endswith("WithOverflow")
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        lits = a.op == "int" and b.op == "int"
        if base in ("Eq", "Ne"):
            r = self.eqterm(a, b)
            return r if base == "Eq" else self.nott(r)
        if base in ("Lt", "Le", "Gt", "Ge"):
            if (a.op, b.op) in (("int", "int"), ("char", "char"), ("bool", "bool")):
                x, y = a.a[0], b.a[0]
                return lbool({"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[base])
            if a is b:
                return lbool(base in ("Le", "Ge"))
            if base == "Gt":
                return mk("lt", b, a)
            if base == "Lt":
                return mk("lt", a, b)
            if base == "Ge":
                return self.nott(mk("lt", a, b))
            return self.nott(mk("lt", b, a))
        if base in ("BitAnd", "BitOr", "BitXor") and (a.op == "bool" or b.op == "bool" or (ta is not None and ta.a[:2] == ("prim", "bool"))):
            if base == "BitAnd":
                return self.andt(a, b)
            if base == "BitOr":
                return self.ort(a, b)
            if a.op == "bool":
                return self.nott(b) if a.a[0] else b
            if b.op == "bool":
                return self.nott(a) if b.a[0] else a
        if lits:
            x, y = a.a[0], b.a[0]
            r = None
            if base == "Add":
                r = x + y
            elif base == "Sub":
                r = x - y
            elif base == "Mul":
                r = x * y
            elif base == "Div" and y != 0:
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif base == "Rem" and y != 0:
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif base == "BitAnd":
                r = x & y
            elif base == "BitOr":
                r = x | y
            elif base == "BitXor":
                r = x ^ y
            elif base == "Shl":
                r = x << y if y < 256 else None
            elif base == "Shr":
                r = x >> y
            if r is not None:
                rng = INT_RANGES.get(ta.a[1]) if ta is not None and ta.a[0] == "prim" else None
                ovf = False
                if rng and not (rng[0] <= r <= rng[1]):
                    ovf = True
                    m = rng[1] - rng[0] + 1
                    r = (r - rng[0]) % m + rng[0]
                return tup(lint(r), lbool(ovf)) if wo else lint(r)
        r = mk("arith", base, a, b)
        if base == "Add" and b.op == "int" and b.a[0] == 0:
            r = a
        if wo:
            return tup(r, mk("ovf", base, a, b))
        return r

    def cast(self, st, kind, v, ft, tt):
        if kind.startswith("IntToInt"):
            v = self.full(st, v)
            if tt.a[0] == "prim" and tt.a[1] in INT_RANGES:
                lo, hi = INT_RANGES[tt.a[1]]
                if v.op == "phi" and any(x.op == "int" for _, x in v.a[0]):
                    raise NeedSplit("phi", v)
                if v.op == "int":
                    r = v.a[0]
                    if not lo <= r <= hi:
                        r = (r - lo) % (hi - lo + 1) + lo
                    return lint(r)
                if v.op == "char":
                    return lint(ord(v.a[0]) & hi)
                if v.op == "bool":
                    return lint(int(v.a[0]))
                if ft.a[0] == "prim" and ft.a[1] in INT_RANGES:
                    l2, h2 = INT_RANGES[ft.a[1]]
                    if lo <= l2 and h2 <= hi:
                        return v
            elif tt.a[:2] == ("prim", "char") and v.op == "int":
                return lchar(chr(v.a[0]))
            return mk("cast", v, tt)
        if kind.startswith(("PointerCoercion", "PtrToPtr", "FnPtrToPtr", "Subtype")):
            return v
        if ft is tt:
            return v
        v = self.full(st, v)
        if tt.a[:2] == ("prim", "u16"):
            # the private field of a status code, as matching on its constants reads it
            if v.op == "int":
                return v
            x = v
            for _ in range(3):
                x = x.a[0] if x is not None and x.op == "fld" and x.a[1:] == (0, 0) else None
            if x is not None:
                return call("StatusCode::as_u16", x)
        return mk("cast", v, tt)

    def discr_of(self, adt, variant):
        a = self.adts.get(adt)
        if a and variant < len(a["variants"]):
            return a["variants"][variant]["discr"]
        return variant

    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            loc, path = self.place(st, fr, r[1])
            if path and not all(isinstance(i, int) for _, i in path):
                # reference into a sequence: keep as a reference when writable in place
                return mk("ref", loc, path)
            # re-borrow of a reference stored at the place keeps its target via read
            return mk("ref", loc, path)
        if k == "agg":
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == "tuple":
                return tup(*ops)
            if kind[0] == "array":
                return arr(ops)
            if kind[0] == "adt":
                if kind[4] is not None:
                    return mk("with", agg(kind[1], 0, ()), 0, kind[4], ops[0])
                return agg(kind[1], kind[2], ops)
            if kind[0] in ("closure", "coroutine"):
                ta = tuple(self.sub(x, fr.targs) if x is not None else None for x in self.targs(kind[2]))
                return agg((kind[0], kind[1], ta), 0, ops)
            return agg(kind[0], 0, ops)
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            t = self.place_ty(fr, r[1])
            if v.op == "ref":
                v = self.deref(st, v)
            if v.op == "phi":
                raise NeedSplit("phi", v)
            adt = t.a[1] if t.a[0] == "adt" else None
            if v.op == "agg":
                return lint(self.discr_of(adt or v.a[0], v.a[1]))
            if v.op == "with":
                b = v
                while b.op == "with":
                    b = b.a[0]
                if b.op == "agg":
                    return lint(self.discr_of(adt or b.a[0], b.a[1]))
            return mk("discr", self.full(st, v), adt)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.operand_ty(fr, r[2]))
        if k == "un":
            v = self.full(st, self.operand(st, fr, r[2]))
            if v.op == "phi":
                raise NeedSplit("phi", v)
            if r[1] == "Not":
                t = self.operand_ty(fr, r[2])
                if t.a[:2] == ("prim", "bool"):
                    return self.nott(v)
                return mk("arith", "Not", v)
            if r[1] == "Neg":
                if v.op == "int":
                    return lint(-v.a[0])
                return mk("arith", "Neg", v)
            if r[1] == "PtrMetadata":
                items = self.concrete_items(v)
                if items is not None:
                    return lint(len(items))
                return mk("call", "len", (v,))
            return mk("arith", r[1], v)
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), self.operand_ty(fr, r[2]), self.sub(self.ty(r[3]), fr.targs))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is not None and r[2] <= 64:
                return arr([v] * r[2])
            return mk("repeat", v, r[2])
        return mk("unknown", str(r[1:])[:200])

    # -------------------------------------------------------------- CFG
    def cfg(self, bid):
        c = self._cfg.get(bid)
        if c is not None:
            return c
        blocks = self.bodies[bid]["blocks"]
        n = len(blocks)
        succ = []
        for b in blocks:
            t = b["t"]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "drop":
                s = [t[2]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[3]]
            elif k == "yield":
                s = [t[2]]
            else:
                s = []
            succ.append(s)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(succ[x])))
                    break
            else:
                order.append(b)
                stack.pop()
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for b in order:
            for x in succ[b]:
                pred[x].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in pred[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while rpo[x] > rpo[y]:
                                    x = idom[x]
                                while rpo[y] > rpo[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]

        loops = {}
        for b in order:
            for h in succ[b]:
                if dom(h, b):
                    body = loops.setdefault(h, {h})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(pred[x])
        c = (rpo, loops)
        self._cfg[bid] = c
        return c

    # -------------------------------------------------------------- running bodies
    def run_body(self, st, bid, targs, args):
        """-> [(state, return value)]"""
        body = self.bodies[bid]
        self.visited_bodies[bid] = self.visited_bodies.get(bid, 0) + 1
        self._frame += 1
        fr = Frame(self._frame, bid, body, targs)
        st = st.copy()
        for i, a in enumerate(args):
            st.store[("L", fr.id, i + 1)] = a
        self.stack.append(bid)
        try:
            rpo, loops = self.cfg(bid)
            exits, backs, rets = self.region(fr, 0, [st], None, None)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.store.get(("L", fr.id, 0), UNIT)
            v = self.simp(s, v)
            s.store = {k: x for k, x in s.store.items() if not (k[0] == "L" and k[1] == fr.id)}
            out.append((s, v))
        if len(out) > self.maxstates:
            out = self.merge_results(out)
        return out

    def merge_results(self, out):
        key = ("R",)
        groups = {}
        for s, v in out:
            s.store[key] = v
            groups.setdefault((v.a[0], v.a[1]) if v.op == "agg" and v.a[0] in (OPT, RES) else None, []).append(s)
        res = []
        for sts in groups.values():
            m = self.merge(sts)
            v = m.store.pop(key)
            res.append((m, v))
        return res

    def merge(self, states):
        if len(states) == 1:
            return states[0]
        common = dict(states[0].facts)
        for s in states[1:]:
            for a in list(common):
                if s.facts.get(a, None) != common[a] or a not in s.facts:
                    del common[a]
        guards = [frozenset((a, v) for a, v in s.facts.items() if a not in common) for s in states]
        keys = set()
        for s in states:
            keys.update(s.store)
        store = {}
        for k in keys:
            vs = [s.store.get(k) for s in states]
            v0 = vs[0]
            if all(v is v0 for v in vs):
                if v0 is not None:
                    store[k] = v0
                continue
            store[k] = self.mergeval([(g, v) for g, v in zip(guards, vs) if v is not None])
        ev = states[0].ev if all(s.ev == states[0].ev for s in states) else (mk("evphi", tuple((g, s.ev) for g, s in zip(guards, states))),)
        if self.exact:
            # which of the states it was
            common.update(self.anyguard(guards) or ())
        return St(store, common, ev)

    def mergeval(self, alts):
        alts = [(g, v) for g, v in alts if v.op != "bottom"]
        if not alts:
            return mk("bottom")
        v0 = alts[0][1]
        if all(v is v0 for _, v in alts):
            return v0
        # factor a common constructor
        if v0.op == "agg" and all(v.op == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for _, v in alts):
            return agg(v0.a[0], v0.a[1], [self.mergeval([(g, v.a[2][i]) for g, v in alts]) for i in range(len(v0.a[2]))])
        # factor a common sequence prefix
        if v0.op == "seq" and all(v.op == "seq" for _, v in alts):
            n = 0
            m = min(len(v.a[0]) for _, v in alts)
            while n < m and all(v.a[0][n] is v0.a[0][n] for _, v in alts):
                n += 1
            if n:
                tail = phi([(g, mk("seq", v.a[0][n:])) for g, v in alts])
                return mk("seq", v0.a[0][:n] + (mk("spread", tail),))
        if self.exact:
            # put together what has the same constructor
            flat, groups = [], {}
            for g, v in alts:
                for g2, v2 in (v.a[0] if v.op == "phi" else ((frozenset(), v),)):
                    m = merge_guard(g, g2)
                    if m is not None:
                        flat.append((m, v2))
            for g, v in flat:
                groups.setdefault((v.a[0], v.a[1], len(v.a[2])) if v.op == "agg" else v, []).append((g, v))
            if len(groups) < len(flat):
                out = []
                for xs in groups.values():
                    g = self.anyguard([g for g, _ in xs]) if len(xs) > 1 else xs[0][0]
                    if g is not None:
                        out.append((g, self.mergeval(xs)))
                if len(out) == 1:
                    return out[0][1]
                if len(out) == 2:
                    # one or the other
                    out.sort(key=lambda x: (len(x[0]) != 1, show(x[1])))
                    for i in (0, 1):
                        g = out[i][0]
                        if len(g) == 1 and next(iter(g))[0].op == "anyof":
                            a, v = next(iter(g))
                            out[1 - i] = (frozenset([(a, not v)]), out[1 - i][1])
                            break
                return mk("phi", tuple(out))
        return phi(alts)

    def region(self, fr, start, states, header, blocks):
        """run a region; -> (exits [(block, st)], back-edge states, returns)"""
        rpo, loops = self.cfg(fr.bid)
        pending = {start: list(states)}
        exits, backs, rets = [], [], []
        first = True
        while pending:
            b = min(pending, key=lambda x: rpo[x])
            sts = pending.pop(b)
            if len(sts) > self.maxstates:
                sts = [self.merge(sts)]
            if b in loops and not (first and b == header):
                for s in sts:
                    ex, rt = self.loop(fr, b, s)
                    rets.extend(rt)
                    for blk, s2 in ex:
                        self.dispatch(blk, s2, header, blocks, pending, exits, backs)
                continue
            first = False
            for s in sts:
                for blk, s2 in self.block(fr, b, s, rets):
                    self.dispatch(blk, s2, header, blocks, pending, exits, backs)
        return exits, backs, rets

    def dispatch(self, blk, s, header, blocks, pending, exits, backs):
        if header is not None and blk == header:
            backs.append(s)
        elif blocks is not None and blk not in blocks:
            exits.append((blk, s))
        else:
            pending.setdefault(blk, []).append(s)

    def loop(self, fr, header, st):
        _, loops = self.cfg(fr.bid)
        blocks = loops[header]

        def step(s):
            ex, bk, rt = self.region(fr, header, [s], header, blocks)
            return bk, [(("x", b), x) for b, x in ex] + [(("r", None), x) for x in rt]

        outs = self.iterate(st, step, fr)
        ex, rt = [], []
        for (k, b), s in outs:
            if k == "x":
                ex.append((b, s))
            else:
                rt.append(s)
        return ex, rt

    # -------------------------------------------------------------- loops
    def iterate(self, st, step, fr, maxunroll=400):
        """step(state) -> (back states, [(tag, exit state)]); returns exits"""
        outs = []
        cur = [st]
        n = 0
        while True:
            if len(cur) != 1:
                break
            s = cur[0]
            panics = len(self.panics)
            bk, ex = step(s.copy())
            base = s.facts
            newf = [x for x in bk if len(x.facts) != len(base)]
            if not bk:
                outs.extend(ex)
                return outs
            if newf or len(bk) > 1:
                # undecided: generalise from here
                del self.panics[panics:]
                outs.extend(self.generalise(s, step, fr))
                return outs
            outs.extend(ex)
            cur = bk
            n += 1
            if n > maxunroll:
                outs.extend(self.generalise(cur[0], step, fr))
                return outs
        raise Unsupported("loop")

    def gen(self, init, back, lid, key, lvs):
        """generalise two values of a location: fresh loop variables where they differ"""
        if init is back:
            return init
        if init.op == "lv" and init.a[0] == lid:
            return init
        if init.op == "agg" and back.op == "agg" and init.a[0] == back.a[0] and init.a[1] == back.a[1] and len(init.a[2]) == len(back.a[2]) and init.a[0] not in (OPT, RES):
            return agg(init.a[0], init.a[1], [self.gen(x, y, lid, key + (i,), lvs) for i, (x, y) in enumerate(zip(init.a[2], back.a[2]))])
        lv = mk("lv", lid, key)
        lvs[lv] = None
        return lv

    def generalise(self, st, step, fr):
        self.loops_summarised += 1
        self._lid += 1
        lid = self._lid
        base = set(st.store)
        cur = st.copy()
        lvs = {}
        for _ in range(12):
            panics = len(self.panics)
            bk, ex = step(cur.copy())
            new = {}
            for loc in base:
                v = cur.store.get(loc)
                if v is None:
                    continue
                g = v
                for s in bk:
                    w = s.store.get(loc)
                    if w is None or w is g:
                        continue
                    w = self.simp(s, w)
                    if w.op == "ref" and g.op != "ref" and self.full(s, w) is g:
                        continue
                    g = self.gen(g, w, lid, (loc,), lvs)
                if g is not v:
                    new[loc] = g
            if not new:
                break
            del self.panics[panics:]
            cur = cur.copy()
            cur.store.update(new)
        else:
            raise Unsupported("loop does not stabilise")
        return self.close(lid, st, cur, bk, ex, fr)

    def lvparts(self, v, lid, init, out):
        """collect (lv, initial value) from a generalised value"""
        if v.op == "lv" and v.a[0] == lid:
            out[v] = init
        elif v.op == "agg" and init.op == "agg" and len(v.a[2]) == len(init.a[2]):
            for x, y in zip(v.a[2], init.a[2]):
                self.lvparts(x, lid, y, out)

    def project_like(self, pattern, v, lid, out):
        """values of the loop variables of `pattern` in value v"""
        if pattern.op == "lv" and pattern.a[0] == lid:
            out[pattern] = v
        elif pattern.op == "agg" and v.op == "agg" and len(v.a[2]) == len(pattern.a[2]):
            for x, y in zip(pattern.a[2], v.a[2]):
                self.project_like(x, y, lid, out)
        elif pattern.op == "agg":
            for i, x in enumerate(pattern.a[2]):
                self.project_like(x, fld(v, pattern.a[1], i), lid, out)

    def close(self, lid, st0, cur, bk, ex, fr):
        inits = {}
        for loc, v in cur.store.items():
            if v is not st0.store.get(loc) and loc in st0.store:
                self.lvparts(v, lid, st0.store[loc], inits)
        nexts = []
        for s in bk:
            o = {}
            for loc, v in cur.store.items():
                if v is not st0.store.get(loc) and loc in st0.store:
                    w = s.store.get(loc)
                    if w is not None:
                        self.project_like(v, self.simp(s, w), lid, o)
            o = {k: self.full(s, x) for k, x in o.items()}
            g = frozenset((a, v) for a, v in s.facts.items() if a not in cur.facts)
            nexts.append((g, o))
        inits = {k: self.full(st0, v) for k, v in inits.items()}
        allg = None
        for g, _ in nexts:
            allg = set(g) if allg is None else allg & set(g)
        allg = allg or set()
        islv = lambda x: x.op == "lv" and x.a[0] == lid
        src, item, itlv = None, None, None
        drivers = set()
        # element-wise iteration over opaque iterators
        for a, v in sorted(allg, key=lambda p: show(p[0])):
            if a.op == "var" and v == 1 and a.a[0].op == "call" and a.a[0].a[0] == "next":
                it = a.a[0].a[1][0]
                if islv(it) and all(o.get(it) is mk("upd", "next", 0, it, ()) for _, o in nexts):
                    src = mk("iter", inits[it])
                    item = fld(a.a[0], 1, 0)
                    itlv = it
                    guard = (a, v)
                    break
        # several iterators advanced together over sequences with one element per element of the same collection
        together = []
        for a, v in sorted(allg, key=lambda p: show(p[0])):
            if src is not None and a.op == "var" and v == 1 and a.a[0].op == "call" and a.a[0].a[0] == "next":
                it = a.a[0].a[1][0]
                if islv(it) and it in inits and all(o.get(it) is mk("upd", "next", 0, it, ()) for _, o in nexts):
                    together.append((a, it))
        # the one advanced first ends the loop
        together.sort(key=lambda p: not any(s.facts.get(p[0]) == 0 and not any(q[0] in s.facts for q in together if q is not p) for _, s in ex))
        if len(together) > 1:
            import iters
            bases = [iters.one_each_seq(inits[it]) for a, it in together]
            if all(x[0] is bases[0][0] for x in bases):
                I = mk("#item", lid)
                mp = {fld(a.a[0], 1, 0): subst(x[2], {x[1]: I}) for (a, it), x in zip(together, bases)}
                gone = {a: 1 for a, it in together[1:]}
                nexts = [(frozenset((subst(a, mp), v) for a, v in g if a not in gone), {k: subst(x, mp) for k, x in o.items()}) for g, o in nexts]
                ex = [(tag, self.subst_state(s, mp)) for tag, s in ex if not any(s.facts.get(a) == 0 for a in gone)]
                src = mk("iter", bases[0][0])
                item = I
                itlv = together[0][1]
                guard = (together[0][0], 1)
                for a, it in together[1:]:
                    inits.pop(it)
                    for tag, s in ex:
                        s.facts.pop(a, None)
                others_done = {it: mk("exhausted", src) for a, it in together[1:]}
                ex = [(tag, self.subst_state(s, others_done)) for tag, s in ex]
        chain = first = None
        if src is None:
            for a, v in sorted(allg, key=lambda p: show(p[0])):
                if a.op == "var" and v == 1 and islv(a.a[0]):
                    lv = a.a[0]
                    steps = set(o.get(lv) for _, o in nexts)
                    if len(steps) == 1:
                        stp = steps.pop()
                        item = fld(lv, 1, 0)
                        others = [x for x in subterms(stp) if islv(x) and x is not lv]
                        probe = subst(stp, {item: sym("#probe")})
                        if not others and not contains(probe, islv):
                            chain = (lv, stp)
                            itlv = lv
                            guard = (a, v)
                            break
            if chain is None:
                # the same with the one before kept instead
                for a, v in sorted(allg, key=lambda p: show(p[0])):
                    if a.op == "var" and v == 1 and a.a[0].op == "call":
                        F = a.a[0]
                        ls = {x for x in subterms(F) if islv(x)}
                        if len(ls) != 1:
                            continue
                        lv = ls.pop()
                        item0 = fld(F, 1, 0)
                        if lv in inits and all(o.get(lv) is item0 for _, o in nexts):
                            item = item0
                            chain = (lv, subst(F, {lv: item}))
                            first = subst(F, {lv: inits[lv]})
                            itlv = lv
                            guard = (a, v)
                            break
        if itlv is None:
            src = mk("anyloop", tuple(sorted((show(k), show(v)) for k, v in ())),)
        # binder
        m = {}

        def binder_for(*ts):
            n = 0
            for t in ts:
                for x in subterms(t):
                    if x.op == "binder":
                        n = max(n, x.a[0] + 1)
            return mk("binder", n)

        if chain is not None:
            b = binder_for(chain[1])
            src = mk("chain", first if first is not None else inits[itlv], b, subst(chain[1], {item: b}))
        # an earlier unfinished loop over the same thing is a different one
        mark = self.loop_mark(st0, src, lid)
        # a counter of iterations: whether this is the first one
        nf = {}
        if item is not None:
            for lv, init in inits.items():
                if init is lint(0) and lv is not itlv and nexts and all(o.get(lv) is mk("arith", "Add", lv, lint(1)) for _, o in nexts):
                    nf[mk("lt", lint(0), lv)] = True
                    nf[mk("lt", lv, lint(1))] = False
                    nf[mk("ieq", lv, lint(0))] = False
                elif init.op == "bool" and lv is not itlv and nexts and all(o.get(lv) is lbool(not init.a[0]) for _, o in nexts):
                    nf[lv] = not init.a[0]
        if nf:
            nexts = [(frozenset((mk("notfirst", item), v == nf[a]) if a in nf else (a, v) for a, v in g), o) for g, o in nexts]
        closed = {}
        for lv, init in inits.items():
            if lv is itlv:
                continue
            alts = []
            good = True
            kind = None
            for g, o in nexts:
                nv = o.get(lv)
                if nv is lv:
                    alts.append((g, None))
                    continue
                if nv is None:
                    good = False
                    break
                if nv.op == "cat" and nv.a[0][0] is lv:
                    delta = cat(*nv.a[0][1:])
                    k = "cat"
                elif nv.op == "seq" and nv.a[0] and nv.a[0][0] is mk("spread", lv):
                    delta = mk("seq", nv.a[0][1:])
                    k = "seq"
                elif nv.op == "mapof" and nv.a[1].op == "seq" and nv.a[1].a[0] and nv.a[1].a[0][0] is mk("spread", call("entries", lv)):
                    delta = mk("seq", nv.a[1].a[0][1:])
                    k = ("map", nv.a[0])
                else:
                    good = False
                    break
                if item is not None:
                    delta, g = self.unlv(delta, islv, itlv, lv, inits, item), frozenset((self.unlv(x, islv, itlv, lv, inits, item), v) for x, v in g)
                if contains(delta, lambda x: islv(x) and x is not itlv) or kind not in (None, k):
                    good = False
                    break
                kind = k
                alts.append((g, delta))
            if good and kind and item is not None:
                empty = lstr("") if kind == "cat" else mk("seq", ())
                body = phi([(frozenset(x for x in g if x != guard), d if d is not None else empty) for g, d in alts])
                b = binder_for(body)
                body = subst(body, {item: b})
                if contains(body, islv):
                    good = False
                else:
                    import iters
                    star = iters.norm_star(mk("star", src, b, body))
                    if kind == "cat":
                        closed[lv] = cat(init, star)
                    elif kind == "seq":
                        closed[lv] = self.seqcat(init, star if star.op == "seq" else mk("seq", (star,)))
                    else:
                        closed[lv] = mk("mapof", kind[1], self.seqcat(iters.entries(init), star if star.op == "seq" else mk("seq", (star,))))
            else:
                good = False
            if not good:
                if item is not None and len(nexts) >= 1:
                    nv = phi([(frozenset(x for x in g if x != guard), o.get(lv, lv)) for g, o in nexts])
                    acc = mk("acc", 0)
                    b = binder_for(nv)
                    nv2 = subst(nv, {item: b, lv: acc})
                    if not contains(nv2, islv):
                        closed[lv] = mk("fold", src, b, init, nv2)
                        continue
                closed[lv] = mk("loopvar", lid, init, list(inits).index(lv), *mark)
        every = None
        if self.quant and item is not None and itlv is not None and src.op == "iter":
            alts = [frozenset((a, v) for a, v in g if (a, v) != guard) for g, _ in nexts]
            if not any(contains(subst(a, {item: UNIT}), islv) for g in alts for a, v in g):
                b = binder_for(*[a for g in alts for a, v in g])
                every = mk("each", src, b, frozenset(frozenset((subst(a, {item: b}), v) for a, v in g) for g in alts))
        self.loop_steps.append(dict(lid=lid, item=item, src=src, inits=inits, it=itlv, nexts=nexts))
        outs = []
        for tag, s in ex:
            normal = itlv is not None and any(a is guard[0] and v == 0 for a, v in s.facts.items())
            mp = dict(closed)
            if normal:
                if itlv is not None:
                    mp[itlv] = mk("exhausted", src)
                s2 = self.subst_state(s, mp)
                s2.facts = {a: v for a, v in s2.facts.items() if not contains(a, lambda x: x.op == "exhausted")}
                if every is not None and frozenset() not in every.a[2]:
                    s2.facts[every] = True
            else:
                mp2 = {lv: mk("during", v, *mark) for lv, v in closed.items()}
                for lv in inits:
                    if lv not in mp2:
                        mp2[lv] = mk("during", src, *mark)
                if item is not None:
                    mp2[item] = mk("someitem", src, *mark)
                s2 = self.subst_state(s, mp2)
            outs.append((tag, s2))
        return outs

    def unlv(self, t, islv, itlv, own, inits, item):
        """t with the state other variables of the loop are in while item is visited as an unknown"""
        mp = {x: mk("at", x.a, inits[x], item) for x in subterms(t) if islv(x) and x is not itlv and x is not own and x in inits}
        return subst(t, mp) if mp else t

    MARKS = {}

    def marks(self, t):
        """the unfinished loops a term tells of: {(source, number)}"""
        r = self.MARKS.get(t)
        if r is None:
            r = frozenset()

            def w(x):
                nonlocal r
                if isinstance(x, Term):
                    m = self.marks(x)
                    if m and not m <= r:
                        r = r | m
                elif isinstance(x, (tuple, frozenset)):
                    for y in x:
                        w(y)
            for x in t.a:
                w(x)
            if t.op in ("someitem", "during"):
                s = t.a[0].a[0] if t.op == "during" and t.a[0].op == "fold" else t.a[0]
                r = r | {(s, t.a[1] if len(t.a) > 1 else 0)}
            elif t.op == "loopvar":
                r = r | {(t.a[0], t.a[3] if len(t.a) > 3 else 0)}
            self.MARKS[t] = r
        return r

    def loop_mark(self, st, src, lid):
        seen = -1
        for a in list(st.facts) + list(st.store.values()):
            for s, n in self.marks(a):
                if s is src or s == lid:
                    seen = max(seen, n)
        return (seen + 1,) if seen >= 0 else ()

    def seqcat(self, a, b):
        ia = self.seqitems(a)
        ib = self.seqitems(b)
        return mk("seq", ia + ib)

    def seqitems(self, a):
        if a.op == "seq":
            return a.a[0]
        if a.op == "agg" and a.a[0] == "array":
            return tuple(mk("e", x) for x in a.a[2])
        if a.op == "bytes":
            return tuple(mk("e", lint(x)) for x in a.a[0])
        return (mk("spread", a),)

    def subst_state(self, s, mp):
        memo = {}
        store = {k: subst(v, mp, memo) for k, v in s.store.items()}
        facts = {subst(a, mp, memo): v for a, v in s.facts.items()}
        return St(store, facts, tuple(subst(e, mp, memo) for e in s.ev))

    # -------------------------------------------------------------- blocks
    def block(self, fr, b, st, rets):
        blk = fr.body["blocks"][b]
        work = [(st.copy(), 0)]
        out = []
        stmts = blk["s"]
        while work:
            s, i = work.pop()
            try:
                while i < len(stmts):
                    x = stmts[i]
                    if x[0] == "=":
                        snap = None
                        v = self.rvalue(s, fr, x[2])
                        loc, path = self.place(s, fr, x[1])
                        self.write(s, loc, path, v)
                    elif x[0] == "setd":
                        loc, path = self.place(s, fr, x[1])
                    elif x[0] == "dead":
                        pass
                    i += 1
                out.extend(self.term(fr, blk, s, rets))
            except NeedSplit as e:
                ss = self.split(s, e)
                if len(ss) == 1 and ss[0].facts == s.facts:
                    raise Unsupported("split makes no progress: %s" % show(e.term)[:300])
                for s2 in ss:
                    work.append((s2, i))
        return out

    def panic(self, fr, st, line, what, benign=False):
        if fr is None:
            return
        self.panics.append(dict(body=fr.bid, file=fr.body["file"], line=line, what=str(what), facts=dict(st.facts), stack=list(self.stack), benign=benign))

    def benign_overflow(self, v):
        """counter or length plus a small constant in a machine word"""
        if v.op == "ovf" and v.a[0] == "Add":
            a, b = v.a[1], v.a[2]
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and 0 <= y.a[0] < 2 ** 32 and (x.op in ("lv", "len", "loopvar", "during", "fold", "acc") or (x.op == "call" and str(x.a[0]).rsplit("::", 1)[-1] in ("len", "count")) or (x.op == "arith" and x.a[0] == "Add")):
                    return True
        return False

    def term(self, fr, blk, st, rets):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            rets.append(st)
            return []
        if k == "drop":
            return [(t[2], st)]
        if k == "unreachable" or k == "unwind":
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            v = self.full(st, c)
            if v.op == "bool":
                if v.a[0] == t[2]:
                    return [(t[3], st)]
                self.panic(fr, st, t[5], t[4])
                return []
            if self.benign_overflow(v):
                return [(t[3], st)]
            r = self.truth(st, c)  # may split
            if r == t[2]:
                return [(t[3], st)]
            self.panic(fr, st, t[5], t[4])
            return []
        if k == "yield":
            loc, path = self.place(st, fr, t[3])
            self.write(st, loc, path, sym("resume"))
            return [(t[2], st)]
        if k == "call":
            res = self.do_call(fr, t, st)
            out = []
            for s, v in res:
                if t[4] is None:
                    continue
                if v.op == "call":
                    v = self.setter(fr, t, s, v)
                loc, path = self.place(s, fr, t[3])
                self.write(s, loc, path, v)
                out.append((t[4], s))
            return out
        raise Unsupported("terminator %s" % k)

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t[1])
        v = self.full(st, v)
        v = self.simp(st, v)
        if v.op == "phi":
            raise NeedSplit("phi", v)
        if v.op in ("int", "bool", "char"):
            x = v.a[0]
            n = int(x) if v.op != "char" else ord(x)
            ty = self.ty(t[4])
            for val, bb in t[2]:
                vv = int(val)
                if ty.a[0] == "prim" and ty.a[1].startswith("i") and ty.a[1] in INT_RANGES:
                    lo, hi = INT_RANGES[ty.a[1]]
                    if vv > hi:
                        vv -= hi - lo + 1
                if vv == n:
                    return [(bb, st)]
            return [(t[3], st)]
        if v.op == "discr":
            x, adt = v.a
            nv = self.nvariants(adt) if adt else None
            if nv is None:
                vals = [int(a) for a, _ in t[2]]
                out = []
                atom = mk("var", x)
                r = self.known(st, atom)
                for a, bb in t[2]:
                    if r is None or r == int(a):
                        s = self.assume(st, ((atom, int(a)),))
                        if s:
                            out.append((bb, s))
                if r is None or r not in vals:
                    s = st.copy()
                    if r is None:
                        s.facts[atom] = "other"
                    out.append((t[3], s))
                return out
            variant = self.decided(st, mk("var", x), tuple(range(nv)))
            d = self.discr_of(adt, variant)
            for a, bb in t[2]:
                if int(a) == d or (d < 0 and int(a) == d % (1 << 64)):
                    return [(bb, st)]
            return [(t[3], st)]
        ty = self.ty(t[4])
        if ty.a[:2] == ("prim", "bool"):
            r = self.truth(st, v)
            for a, bb in t[2]:
                if int(a) == int(r):
                    return [(bb, st)]
            return [(t[3], st)]
        # opaque integer
        out = []
        rest = st
        for a, bb in t[2]:
            lit = lchar(chr(int(a))) if ty.a[:2] == ("prim", "char") else lint(int(a))
            atom = mk("ieq", v, lit)
            r = self.known(rest, atom)
            if r is True:
                return out + [(bb, rest)]
            if r is False:
                continue
            s = rest.copy()
            s.facts[atom] = True
            out.append((bb, s))
            rest = rest.copy()
            rest.facts[atom] = False
        out.append((t[3], rest))
        return out

    # -------------------------------------------------------------- calls
    def setter(self, fr, t, st, v):
        """a function of another crate from &mut X to &mut X returns the X it is given"""
        if not t[2] or not t[6] or v.a[0] in self.bodies:
            return v
        a = self.sub(self.ty(t[6][0]), fr.targs)
        if a.a[0] != "ref" or not a.a[2] or a.a[1].a[0] != "adt":
            return v
        d = self.sub(self.place_ty(fr, t[3]), fr.targs)
        if d.a[0] != "ref" or not d.a[2] or d.a[1].a[:2] != a.a[1].a[:2]:
            return v
        x = self.operand(st, fr, t[2][0])
        return x if x.op == "ref" else v

    def do_call(self, fr, t, st):
        fv = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        argtys = [self.sub(self.ty(x), fr.targs) for x in t[6]]
        return self.call_value(st, fv, args, fr, t[5], argtys)

    def call_value(self, st, fv, args, fr, line=0, argtys=None):
        """call a function value with plain arguments -> [(st, v)]"""
        fv = self.deref(st, fv)
        if fv.op == "phi":
            raise NeedSplit("phi", fv)
        if fv.op == "fn":
            return self.call_fn(st, fv.a[0], fv.a[1], args, fr, line, argtys)
        if fv.op == "agg" and isinstance(fv.a[0], tuple) and fv.a[0][0] == "closure":
            _, bid, ta = fv.a[0]
            body = self.bodies.get(bid)
            if body is None:
                return [(st, call("closure:" + bid, *[self.full(st, a) for a in args]))]
            selfty = self.ty(body["locals"][1])
            st = st.copy()
            if selfty.a[0] == "ref":
                cv = self.newref(st, fv)
            else:
                cv = fv
            return self.inline(st, bid, ta, [cv] + list(args), fr, line)
        # opaque function value
        return [(st, call("apply", self.full(st, fv), *[self.full(st, a) for a in args]))]

    def call_closure_ref(self, st, fref, args, fr, line=0):
        """call a closure stored behind a location so that its captured state is updated"""
        v = fref
        while v.op == "ref":
            inner = self.read(st, v.a[0], v.a[1])
            if inner.op == "ref":
                v = inner
                continue
            break
        if v.op == "ref":
            fv = self.deref(st, v)
            if fv.op == "agg" and isinstance(fv.a[0], tuple) and fv.a[0][0] == "closure":
                _, bid, ta = fv.a[0]
                body = self.bodies.get(bid)
                if body is not None:
                    selfty = self.ty(body["locals"][1])
                    cv = v if selfty.a[0] == "ref" else fv
                    return self.inline(st, bid, ta, [cv] + list(args), fr, line)
        return self.call_value(st, v, args, fr, line)

    def inline(self, st, bid, ta, args, fr, line):
        n = self.stack.count(bid)
        if bid in self.opaque_bodies or n >= self.inline_limit or len(self.stack) > self.maxdepth:
            if n >= self.inline_limit:
                fa = tuple(self.full(st, a) for a in args)
                if all(f == fa for b, f in self.active if b == bid):
                    self.recursions.append(bid)
            return self.opaque(st, bid, args, fr, None)
        self.active.append((bid, tuple(self.full(st, a) for a in args)))
        try:
            return self.run_body(st, bid, ta, args)
        finally:
            self.active.pop()

    def call_fn(self, st, key, targs, args, fr, line=0, argtys=None):
        f = self.fnrefs[key]
        self.calls_seen += 1
        # constructors
        if "ctor" in f:
            return [(st, agg(f["ctor"], f["cv"], args))]
        if "tr" in f:
            return self.call_trait(st, f["tr"], f["nm"], targs, args, fr, line, argtys, f)
        return self.call_path(st, f, targs, args, fr, line, argtys)

    def call_path(self, st, f, targs, args, fr, line, argtys):
        cn = f["cn"]
        c = Call(cn, args, targs, fr, line, f, argtys)
        m = self.models.get(cn)
        r = self.apply_model(m, st, c) if m is not None else None
        if r is not None:
            return r
        if f["id"] in self.bodies:
            return self.inline(st, f["id"], targs, args, fr, line)
        for p, m in self.pmodels:
            if p(cn):
                r = self.apply_model(m, st, c)
                if r is not None:
                    return r
        return self.opaque(st, cn, args, fr, c)

    def call_trait(self, st, tr, nm, targs, args, fr, line=0, argtys=None, f=None):
        """trait method call; targs = [Self, trait params.., method params..]"""
        selfty = targs[0] if targs else None
        if selfty is not None and selfty.a[0] == "alias":
            selfty = self.normalise(selfty)
            targs = (selfty,) + tuple(targs[1:])
        cn = tr + "::" + nm
        c = Call(cn, args, targs, fr, line, f, argtys)
        for im, b in self.find_impls(tr, targs):
            if nm in im["items"]:
                ntr = len(im["targs"])
                ta = tuple(b) + tuple(targs[ntr:])
                return self.inline(st, im["items"][nm], ta, args, fr, line)
            # provided method of a local trait
            tt = self.traits.get(tr)
            if tt and nm in tt and tt[nm][0] in self.bodies:
                return self.inline(st, tt[nm][0], targs, args, fr, line)
            m = self.models.get("default:" + cn)
            if m is not None:
                return self.apply_model(m, st, c)
            break
        if tr == "core::iter::traits::iterator::Iterator" and args and selfty is not None:
            u = self.user_iter(st, selfty, args[0])
            if u is not args[0] and nm == "next":
                return self.call_trait(st, tr, nm, (u.a[2][1],), (u.a[2][0],), fr, line)
            args = (u,) + tuple(args[1:])
            c = Call(cn, args, targs, fr, line, f, argtys)
        # calling through a reference to an implementing type
        if selfty is not None and selfty.a[0] == "closure" and tr.startswith("core::ops::function::Fn"):
            m = self.models.get(cn)
            return self.apply_model(m, st, c)
        m = self.models.get(cn)
        if m is not None:
            r = self.apply_model(m, st, c)
            if r is not None:
                return r
        tt = self.traits.get(tr)
        if tt and nm in tt and tt[nm][1] and tt[nm][0] in self.bodies and not self.find_impls(tr, targs) and selfty is not None and selfty.a[0] not in ("param", "alias", "dyn"):
            return self.inline(st, tt[nm][0], targs, args, fr, line)
        for p, m in self.pmodels:
            if p(cn):
                r = self.apply_model(m, st, c)
                if r is not None:
                    return r
        return self.opaque(st, cn, args, fr, c)

    def user_iter(self, st, ty, v):
        """a value of a type with an `Iterator` impl of its own, where a provided method of the trait is called on it"""
        byref = False
        while ty.a[0] == "ref":
            ty, byref = ty.a[1], True
        if ty.a[0] != "adt" or not any("next" in im["items"] for im, _ in self.find_impls("core::iter::traits::iterator::Iterator", (ty,))):
            return v
        if byref or v.op == "ref":
            while v.op == "ref":
                w = self.simp(st, self.read(st, v.a[0], v.a[1]))
                if w.op != "ref":
                    break
                v = w
            return agg(("iter", "user"), 0, (v, ty))
        if v.op == "agg" and isinstance(v.a[0], tuple):
            return v
        return agg(("iter", "user"), 0, (self.newref(st, v), ty))

    def apply_model(self, m, st, c):
        work = [st]
        out = []
        while work:
            s = work.pop(0)
            try:
                r = m(self, s.copy(), c)
            except NeedSplit as e:
                work = self.split(s, e) + work
                continue
            if r is None:
                return None
            if isinstance(r, Term):
                raise Unsupported("model must return a list")
            out.extend(r)
        return out

    PURE_MUT = ()

    def opaque(self, st, cn, args, fr, c):
        """a call we know nothing about: a term over its arguments; arguments
        reachable by mutable reference become functions of their old value"""
        self.unmodelled[cn] = self.unmodelled.get(cn, 0) + 1
        st = st.copy()
        fargs = tuple(self.full(st, a) for a in args)
        tys = c.argtys if c is not None and c.argtys else None
        if tys is None and cn in self.bodies:
            b = self.bodies[cn]
            tys = [self.ty(b["locals"][i + 1]) for i in range(b["argc"])]
        for i, a in enumerate(args):
            ismut = False
            if tys is not None and i < len(tys) and tys[i] is not None:
                ty = tys[i]
                ismut = ty.a[0] == "ref" and ty.a[2]
                if ty.a[0] == "adt" and ty.a[1] == "core::pin::Pin":
                    ismut = True
            if ismut and a.op == "ref":
                loc, path = a.a
                tgt = self.read(st, loc, path)
                while tgt.op == "ref":
                    loc, path = tgt.a
                    tgt = self.read(st, loc, path)
                upd = mk("upd", cn, i, fargs[i], tuple(x for j, x in enumerate(fargs) if j != i))
                ty = tys[i].a[1] if tys[i].a[0] == "ref" else None
                keep = self.stable_fields(ty.a[1]) if ty is not None and ty.a[0] == "adt" and cn in self.bodies else ()
                if keep:
                    # no code of the crate writes these fields through a reference
                    n = len(self.adts[ty.a[1]]["variants"][0]["fields"])
                    upd = agg(ty.a[1], 0, [fld(fargs[i], 0, f) if f in keep else fld(upd, 0, f) for f in range(n)])
                self.write(st, loc, path, upd)
        return [(st, call(cn, *fargs))]

    def stable_fields(self, adt):
        """the fields of a struct of this crate that no function of the crate assigns, borrows mutably,
        or overwrites together with the whole struct: what they hold never changes after construction"""
        if not hasattr(self, "_stable"):
            self._stable = {}
        if adt not in self._stable:
            self._stable[adt] = self._find_stable(adt)
        return self._stable[adt]

    def _find_stable(self, adt):
        info = self.adts.get(adt)
        if info is None or len(info.get("variants", ())) != 1 or info.get("kind") != "struct":
            return frozenset()
        n = len(info["variants"][0]["fields"])
        touched = set()
        is_t = lambda t: t is not None and t.a[0] == "adt" and t.a[1] == adt
        mentions = lambda t: t is not None and any(is_t(x) for x in subterms(t))

        def walk(body, pl, whole):
            t = self.ty(body["locals"][pl[0]])
            derefs = 0
            for e in pl[1]:
                if e == "*":
                    t = self.deref_ty(t)
                    derefs += 1
                elif e[0] == "f":
                    if is_t(t):
                        touched.add(e[1])
                    t = self.ty(e[2])
                elif e[0] in ("i", "ci", "sub"):
                    t = t.a[1] if t.a[0] in ("array", "slice") else T("other", "elem")
            if whole and derefs and mentions(t):
                touched.update(range(n))

        for b in self.bodies.values():
            for blk in b["blocks"]:
                for s in blk["s"]:
                    if s[0] == "=":
                        walk(b, s[1], True)
                        r = s[2]
                        if r[0] == "ref" and r[2]:
                            walk(b, r[1], False)
                t = blk["t"]
                if t[0] == "call":
                    walk(b, t[3], True)
                    f = t[1][1].get("f", {}) if t[1][0] == "k" and isinstance(t[1][1], dict) else {}
                    if not f.get("local"):
                        for x in (t[6] if len(t) > 6 and t[6] else ()):
                            ty = self.ty(x) if x is not None else None
                            if ty is not None and ty.a[0] == "ref" and ty.a[2] and mentions(ty):
                                touched.update(range(n))
        return frozenset(range(n)) - touched
