"""What surrounds generation: the stand-alone crate (G18) and how settings reach the generator (G19)."""
import re, tomllib
from specs_gen import *
from specs_gen import P, Param, choices, generators, interface, all_terms
from interp import St, T
from specs_gen5 import KEYWORDS


class Suite:
    """the generator and its two front ends"""

    def __init__(self, impl, macro, cargo):
        self.impl, self.macro, self.cargo = impl, macro, cargo
        self.E = impl.E


def adt_of(g, name):
    return g.adt(name)


# ---------------------------------------------------------------- chains of setters
def chain(t, facts, loop=None):
    """a settings value made by calls of setters: (what it starts from, [(setter, arguments, loop, facts)])"""
    t = resolve(t, facts)
    if t.op == "upd" and t.a[1] == 0:
        base, calls = chain(t.a[2], facts, loop)
        return base, calls + [(t.a[0].rsplit("::", 1)[-1], t.a[3], loop, facts)]
    if t.op == "call" and "::with_" in t.a[0] and t.a[1]:
        base, calls = chain(t.a[1][0], facts, loop)
        return base, calls + [(t.a[0].rsplit("::", 1)[-1], t.a[1][1:], loop, facts)]
    if t.op == "fold":
        it, e, acc0, body = t.a
        base, calls = chain(acc0, facts, loop)
        for o in alternatives(body):
            b, cs = chain(o.ret, o.facts, (it, e))
            if b.op != "acc":
                raise Unsupported("a loop that sets anew: %s" % show(b)[:200])
            if not cs:
                calls = calls + [("", (), (it, e), o.facts)]
            calls = calls + cs
        return base, calls
    return t, []


def source_of(it):
    """what a loop runs over"""
    if it.op == "iter":
        it = it.a[0]
    while it.op == "call" and it.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "entries") and len(it.a[1]) == 1:
        it = it.a[1][0]
    return it


def same_items(t, of):
    """a sequence, or the remainder of an iterator, of exactly the elements of `of`"""
    if t is of:
        return True
    if t.op == "seq" and len(t.a[0]) == 1:
        x = t.a[0][0]
        if x.op == "spread":
            return same_items(x.a[0], of)
        if x.op == "star" and x.a[2].op == "seq" and len(x.a[2].a[0]) == 1 and x.a[2].a[0][0] is mk("e", x.a[1]):
            return same_items(source_of(x.a[0]), of)
    if t.op in ("iter", "entries") or t.op == "agg" and isinstance(t.a[0], tuple) and t.a[0][0] == "iter" and len(t.a[2]) == 1:
        return same_items(t.a[0] if t.op in ("iter", "entries") else t.a[2][0], of)
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("iter", "into_iter", "cloned") and len(t.a[1]) == 1:
        return same_items(t.a[1][0], of)
    return False


def text_of(t):
    """what a value displays as: texts and tokens are told apart by what they show only"""
    while True:
        if t.op == "disp" and t.a[0] == "Display" and t.a[2] in (0, lint(0)):
            t = t.a[1]
        elif t.op == "tokens":
            t = t.a[0]
        elif t.op == "ident":
            t = t.a[0]
        elif t.op == "call" and t.a[0] in ("text",) and len(t.a[1]) == 1:
            t = t.a[1][0]
        elif t.op == "cat" and len(t.a[0]) == 1:
            t = t.a[0][0]
        else:
            return t


def expand(t, facts, limit=5000):
    """the values a term can have, one alternative at a time, wherever in it the alternatives are"""
    out = []
    work = [(t, dict(facts))]
    while work:
        x, f = work.pop()
        x = resolve(x, f)
        p = outer_phi(x, {})
        if p is None:
            out.append((f, x))
            if len(out) > limit:
                raise Unsupported("too many alternatives")
            continue
        for gd, v in p.a[0]:
            m = merge_facts(f, dict(gd))
            if m is not None:
                work.append((subst(x, {p: v}), m))
    return out


def outer_phi(t, memo):
    """a choice inside a term that is not the choice of one turn of a loop"""
    if t in memo:
        return memo[t]
    memo[t] = None
    r = None
    if t.op == "phi":
        r = t
    elif t.op in ("fold", "star"):
        kids = (t.a[0], t.a[2]) if t.op == "fold" else (t.a[0],)
        for k in kids:
            r = r or outer_phi(k, memo)
    else:
        for k in kids_of(t):
            r = r or outer_phi(k, memo)
    memo[t] = r
    return r


def kids_of(t):
    stack = list(t.a)
    while stack:
        k = stack.pop()
        if isinstance(k, Term):
            yield k
        elif isinstance(k, (tuple, frozenset)):
            stack.extend(k)


# ---------------------------------------------------------------- G19
SETTERS = {  # setter: field
    "with_interface": "interface", "with_tag": "tag", "with_inner_type": "inner_type", "with_pre_hook": "pre_hook", "with_pre_hook_async": "pre_hook_async",
    "with_post_hook": "post_hook", "with_post_hook_async": "post_hook_async", "with_unknown_crates": "unknown_crates"}


def setters(g, rep):
    GS, CS = g.adt("GenerationSettings"), g.adt("CrateSpec")
    fields = [f[0] for f in g.E.adts[GS]["variants"][0]["fields"]]
    opt = {"inner_type", "pre_hook", "pre_hook_async", "post_hook", "post_hook_async", "map_type"}
    seen = set()
    for n in list(SETTERS) + ["with_derive", "with_map_type", "with_patch", "with_replacement", "with_conversion", "with_crate"]:
        b = g.method(GS, n)[0]
        w = g.where(b)
        a = [sym("a%d" % i) for i in range(1, g.E.bodies[b]["argc"])]
        g.opaque()
        outs = g.run(b, [sym("s")] + a)
        bad = None if outs else "it never returns"
        for o in outs:
            target = {"with_derive": "extra_derives", "with_map_type": "map_type", "with_patch": "patch", "with_replacement": "replace", "with_conversion": "convert", "with_crate": "crates"}.get(n) or SETTERS[n]
            seen.add(target)
            for i, f in enumerate(fields):
                old = fld(sym("s"), 0, i)
                new = resolve(fld(o.ret, 0, i), o.facts)
                if f != target:
                    if new is not old:
                        bad = "it changes %s to %s" % (f, show(new)[:200])
                    continue
                if n in SETTERS or n == "with_map_type":
                    if f in opt:
                        ok = new.op == "agg" and new.a[0] == OPT and new.a[1] == 1 and text_of(new.a[2][0]) is a[0]
                    else:
                        ok = new is a[0]
                else:
                    ok = added(g, CS, n, new, old, a, o.facts)
                if not ok:
                    bad = "%s becomes %s" % (f, show(new)[:300])
        need(rep, "G19:setter:%s" % n, bad is None, "a setter of the generation settings records what it is given, and nothing else", w, bad)
    miss = set(fields) - seen
    need(rep, "G19:setter:all", not miss, "every generation setting has a setter", g.where(g.method(GS, "with_tag")[0]), "no setter for %s" % sorted(miss))


def added(g, CS, n, new, old, a, facts):
    """one entry is put at the end of a list, or into a map"""
    if new.op == "mapof":
        new = new.a[1]
        ok = lambda x: x.op == "spread" and x.a[0].op in ("call", "entries") and (x.a[0].a[1][0] if x.a[0].op == "call" else x.a[0].a[0]) is old
    else:
        ok = lambda x: x.op == "spread" and x.a[0] is old
    if new.op != "seq" or len(new.a[0]) != 2 or not ok(new.a[0][0]) or new.a[0][1].op != "e":
        return False
    e = resolve(new.a[0][1].a[0], facts)
    part = [resolve(fld(e, 0, i), facts) for i in range(3)]
    if n == "with_derive":
        return text_of(e) is a[0]
    if n == "with_patch":
        return text_of(part[0]) is a[0] and part[1] is a[1]
    if n == "with_replacement":
        return text_of(part[0]) is a[0] and text_of(fld(part[1], 0, 0)) is a[1] and same_items(fld(part[1], 0, 1), a[2])
    if n == "with_conversion":
        return part[0] is a[0] and text_of(part[1]) is a[1] and same_items(part[2], a[2])
    if n == "with_crate":
        return text_of(part[0]) is a[0] and g.get(part[1], CS, "version") is a[1] and g.get(part[1], CS, "rename") is a[2]
    return False


def expect(calls, want, key, rep, w, desc, facts):
    """the setters called are the wanted ones: {setter: (loop source or None, test of the arguments)}"""
    bad = None
    done = {}
    for n, args, loop, f in calls:
        src = source_of(loop[0]) if loop else None
        if n == "":
            bad = bad or "an element of %s is passed over when %s" % (show(src)[:150], cond(f)[:200])
            continue
        if n not in want:
            bad = bad or "%s is called" % n
            continue
        of, test = want[n]
        if (of is None) != (src is None) or of is not None and src is not of:
            bad = bad or "%s is called for %s" % (n, "each of %s" % show(src)[:200] if src is not None else "one value")
        elif not test(loop[1] if loop else None, args, f):
            bad = bad or "%s is called with %s" % (n, [show(x)[:200] for x in args])
        done.setdefault(n, []).append(f)
    for n, (of, _) in want.items():
        k = done.get(n, [])
        if not k:
            bad = bad or "%s is not called when %s" % (n, cond(facts)[:300])
        elif len(k) > 1 and any(merge_facts(dict(x), y) is not None for i, x in enumerate(k) for y in k[i + 1:]):
            bad = bad or "%s is called twice" % n
    return bad


def type_settings(g, rep):
    """Generator::new hands every setting that concerns types on to the type generator"""
    G, GS, CS, IS = g.adt("Generator"), g.adt("GenerationSettings"), g.adt("CrateSpec"), g.adt("InterfaceStyle")
    b = g.method(G, "new")[0]
    w = g.where(b)
    s = sym("s")
    S = lambda n: g.get(s, GS, n)
    g.opaque()
    bad = kept = None
    outs = g.run(b, [s])
    for o in outs:
        ts = resolve(g.get(o.ret, G, "type_space"), o.facts)
        if ts.op != "call" or not ts.a[0].endswith("TypeSpace::new"):
            bad = bad or "the type space is %s" % show(ts)[:200]
            continue
        for f, t in choices(ts.a[1][0], o.facts):
            base, calls = chain(t, f)
            if base.op != "call" and not show(base).startswith("default("):
                bad = bad or "the type settings start from %s" % show(base)[:200]
            builder_ = f.get(var(S("interface"))) == g.vi(IS, "Builder")
            at = lambda e, i: fld(e, 0, i)
            want = {"with_type_mod": (None, lambda e, a, f: text_of(a[0]) is lstr("types")),
                    "with_struct_builder": (None, lambda e, a, f: is_bool(a[0], f, mk("ieq", S("interface"), agg(IS, g.vi(IS, "Builder"), ())), builder_)),
                    "with_unknown_crates": (None, lambda e, a, f: a[0] is S("unknown_crates")),
                    "with_derive": (S("extra_derives"), lambda e, a, f: text_of(a[0]) is e),
                    "with_crate": (S("crates"), lambda e, a, f: text_of(a[0]) is at(e, 0) and a[1] is g.get(at(e, 1), CS, "version") and a[2] is g.get(at(e, 1), CS, "rename")),
                    "with_patch": (S("patch"), lambda e, a, f: text_of(a[0]) is at(e, 0) and a[1] is at(e, 1)),
                    "with_replacement": (S("replace"), lambda e, a, f: text_of(a[0]) is at(e, 0) and text_of(a[1]) is at(at(e, 1), 0) and same_items(a[2], at(at(e, 1), 1))),
                    "with_conversion": (S("convert"), lambda e, a, f: a[0] is at(e, 0) and text_of(a[1]) is at(e, 1) and same_items(a[2], at(e, 2)))}
            if f.get(var(S("map_type"))) == 1:
                want["with_map_type"] = (None, lambda e, a, f: text_of(a[0]) is fld(S("map_type"), 1, 0))
            bad = bad or expect(calls, want, "", rep, w, "", f)
        for i, fn in enumerate(g.E.adts[GS]["variants"][0]["fields"]):
            x = resolve(fld(g.get(o.ret, G, "settings"), 0, i), o.facts)
            y = resolve(fld(s, 0, i), o.facts)
            if x is not y and not (x.op == "agg" and not x.a[2] and o.facts.get(var(y)) == x.a[1]):
                kept = kept or "its %s is %s" % (fn[0], show(x)[:200])
    need(rep, "G19:types", bool(outs) and bad is None, "every setting that concerns types is handed to the type generator: derives, crates, patches, replacements, conversions, the policy for unknown crates, the map type, and builders of structs exactly if the builder interface is asked for", w, bad)
    need(rep, "G19:kept", bool(outs) and kept is None, "the generator works with the settings it is given", w, kept)


def is_bool(t, f, atom, v):
    t = resolve(t, f)
    return t.op == "bool" and t.a[0] == v or t is atom


def macro_settings(g, rep):
    """the macro's arguments become generation settings"""
    MS = g.adt("MacroSettings")
    PA = g.adt("MacroPatch")
    CSP = g.adt("MacroCrateSpec")
    b = g.free_fn("do_generate_api")
    w = g.where(b)
    g.E.opaque_bodies = set()
    item = sym("item")
    outs = g.run(b, [item])
    alts = []
    for o in outs:
        alts += expand(o.ret, o.facts)
    bad = {}
    plain = full = 0
    for f, r in alts:
        news = {t for t in subterms(r) if t.op == "call" and t.a[0].endswith("Generator::new")}
        if len(news) > 1 and r.op == "agg":
            bad.setdefault("one", "%d generators are made" % len(news))
        ok = r.op == "agg" and r.a[0] == RES and r.a[1] == 0
        if not news:
            if ok:
                bad.setdefault("one", "the result is %s" % show(r)[:200])
            continue
        base, calls = chain(next(iter(news)).a[1][0], f)
        if not show(base).startswith("default("):
            bad.setdefault("base", "the settings start from %s" % show(base)[:200])
        lit = [a.a[0] for a, v in f.items() if a.op == "var" and v == 0 and a.a[0].op == "call" and a.a[0].a[0].rsplit("::", 1)[-1] in ("parse", "parse2") and contains(a.a[0], lambda x: x is item)]
        args = [a.a[0] for a, v in f.items() if a.op == "var" and v == 0 and a.a[0].op == "call" and a.a[0].a[0].rsplit("::", 1)[-1].startswith("from_tokenstream")]
        if len(args) + len(lit) != 1:
            bad.setdefault("base", "the arguments are read %d ways" % (len(args) + len(lit)))
            continue
        if lit:
            plain += 1
            if calls:
                bad.setdefault("plain", "%s is called" % calls[0][0])
            spec = fld(lit[0], 0, 0)
        else:
            full += 1
            A = fld(args[0], 0, 0)
            M = lambda n: g.get(A, MS, n)
            unwrap = lambda t: text_of(unwrapped(t))
            at = lambda e, i: fld(e, 0, i)
            hook = lambda n: (None, lambda e, a, f: text_of(a[0]) is fld(unwrapped_fld(M(n)), 0, 0) or unwrapped(text_of(a[0])) is fld(M(n), 1, 0) or inner0(text_of(a[0])) is fld(M(n), 1, 0))
            want = {"with_interface": (None, lambda e, a, f: a[0] is M("interface")), "with_tag": (None, lambda e, a, f: a[0] is M("tags")),
                    "with_unknown_crates": (None, lambda e, a, f: a[0] is M("unknown_crates")),
                    "with_derive": (M("derives"), lambda e, a, f: unwrap(a[0]) is e),
                    "with_crate": (M("crates"), lambda e, a, f: crate_args(g, CSP, e, a, f)),
                    "with_patch": (M("patch"), lambda e, a, f: unwrap(a[0]) is at(e, 0) and patch_of(g, PA, a[1], at(e, 1), f)),
                    "with_replacement": (M("replace"), lambda e, a, f: unwrap(a[0]) is at(e, 0) and type_of(g, a[1], a[2], at(e, 1))),
                    "with_conversion": (M("convert"), lambda e, a, f: a[0] is at(e, 0) and type_of(g, a[1], a[2], at(e, 1)))}
            for n, s in (("inner_type", "with_inner_type"), ("map_type", "with_map_type")):
                if f.get(var(M(n))) == 1:
                    want[s] = (None, lambda e, a, f, n=n: unwrap(a[0]) is fld(M(n), 1, 0))
            for n in ("pre_hook", "pre_hook_async", "post_hook", "post_hook_async"):
                if f.get(var(M(n))) == 1:
                    want["with_" + n] = hook(n)
            c = expect(calls, want, "", rep, w, "", f)
            if c:
                bad.setdefault("settings", c)
            spec = M("spec")
        # the document
        gens = {t for t in subterms(r) if t.op == "call" and t.a[0].endswith("Generator::generate_tokens")}
        if ok:
            c = document(f, r, gens, spec, next(iter(news)))
            if c:
                bad.setdefault("document", c)
    need(rep, "G19:macro:forms", plain and full and not ({"one", "base"} & set(bad)), "the macro takes a path alone, or named arguments, and makes one generator", w, bad.get("one") or bad.get("base"))
    need(rep, "G19:macro:plain", "plain" not in bad, "a path alone means the default settings", w, bad.get("plain"))
    need(rep, "G19:macro:settings", "settings" not in bad, "every argument of the macro reaches the generation setting of its name, and absent ones leave the default", w, bad.get("settings"))
    need(rep, "G19:macro:document", "document" not in bad, "the client is generated from the document at the path given, relative to the crate, read as JSON or else as YAML, and is generated again when that file changes", w, bad.get("document"))
    rep.analysed["macro_outcomes"] = len(alts)


def unwrapped(t):
    while t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("into_inner", "deref", "clone") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def unwrapped_fld(t):
    return fld(t, 1, 0)


def inner0(t):
    """the tokens of a closure or path"""
    if t.op == "fld" and t.a[2] == 0:
        return unwrapped(t.a[0])
    return t


def crate_args(g, CSP, e, a, f):
    name, spec = fld(e, 0, 0), fld(e, 0, 1)
    orig = g.get(spec, CSP, "original")
    if a[1] is not g.get(spec, CSP, "version"):
        return False
    name = (name, fld(name, 0, 0))
    r = resolve(a[2], f)
    if f.get(var(orig)) == 1:
        return text_of(a[0]) is fld(orig, 1, 0) and r.op == "agg" and r.a[1] == 1 and text_of(r.a[2][0]) in name
    return f.get(var(orig)) == 0 and text_of(a[0]) in name and r.op == "agg" and r.a[1] == 0


def patch_of(g, PA, t, of, f):
    base, calls = chain(t, f)
    if not show(base).startswith("default("):
        return False
    ren = g.get(of, PA, "rename")
    n = {}
    for c, a, loop, _ in calls:
        n[c] = n.get(c, 0) + 1
        if c == "with_rename" and loop is None:
            if text_of(a[0]) is not fld(ren, 1, 0):
                return False
        elif c == "with_derive" and loop is not None:
            if source_of(loop[0]) is not g.get(of, PA, "derives") or unwrapped(text_of(a[0])) is not loop[1]:
                return False
        else:
            return False
    return n.get("with_derive") == 1 and n.get("with_rename", 0) == (1 if f.get(var(ren)) == 1 else 0)


def type_of(g, name, impls, of):
    """a type given by name, and the traits it has: by default FromStr and Display, and as told"""
    TI, IT = g.adt("TypeAndImpls"), g.adt("ImplTrait")
    n = text_of(name)
    if not (n.op == "fld" and n.a[2] == g.fi(TI, "type_name") and unwrapped(n.a[0]) is of):
        return False
    t = impls
    while t.op in ("iter",) or t.op == "agg" and isinstance(t.a[0], tuple) and t.a[0][0] == "iter" and len(t.a[2]) == 1 or t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("into_iter", "iter"):
        t = t.a[0] if t.op == "iter" else t.a[2][0] if t.op == "agg" else t.a[1][0]
    if t.op != "fold":
        return False
    it, e, start, body = t.a
    src = source_of(it)
    if not (src.op == "fld" and src.a[2] == g.fi(TI, "impls") and unwrapped(src.a[0]) is of):
        return False
    TSI = [k for k in g.E.adts if k.rsplit("::", 1)[-1] == "TypeSpaceImpl"][0]
    dflt = {agg(TSI, g.vi(TSI, v), ()) for v in ("FromStr", "Display")}
    if start.op != "mapof" or start.a[1].op != "seq" or {x.a[0] for x in start.a[1].a[0] if x.op == "e"} != dflt or any(x.op != "e" for x in start.a[1].a[0]):
        return False
    im, mo = g.get(e, IT, "impl_name"), g.get(e, IT, "modifier")
    ok = set()
    for o in alternatives(body):
        f = o.facts
        if f.get(var(im)) == 0:
            if o.ret.op != "acc":
                return False
            continue
        if o.ret.op != "upd" or o.ret.a[2].op != "acc" or o.ret.a[3] != (fld(im, 1, 0),):
            return False
        m = o.ret.a[0].rsplit("::", 1)[-1]
        if (m, f.get(var(mo))) not in (("insert", 0), ("remove", 1)):
            return False
        ok.add(m)
    return ok == {"insert", "remove"}


def document(f, r, gens, spec, new):
    if len(gens) != 1:
        return "%d documents are generated from" % len(gens)
    gt = next(iter(gens))
    if gt.a[1][0] is not new:
        return "tokens are generated by %s" % show(gt.a[1][0])[:150]
    d = gt.a[1][1]
    if f.get(var(gt)) != 0:
        return "a failure of the generator is passed over"
    # read from the file, as JSON or else YAML
    rd = d.a[0] if d.op == "fld" else d
    if rd.op != "call" or rd.a[0].split("::")[0] not in ("serde_json", "serde_yaml") or f.get(var(rd)) != 0:
        return "the document is %s" % show(d)[:200]
    files = {t for t in subterms(rd) if t.op == "call" and t.a[0] == "std::fs::File::open"}
    if rd.a[0].startswith("serde_yaml") and not any(a.op == "var" and v == 1 and a.a[0].op == "call" and a.a[0].a[0].startswith("serde_json") for a, v in f.items()):
        return "YAML is read although JSON was not tried"
    if len(files) != 1:
        return "%d files are read" % len(files)
    path = next(iter(files)).a[1][0]
    if not (path.op == "call" and path.a[0].endswith("Path::join")):
        return "the path is %s" % show(path)[:200]
    p = path.a[1][1]
    if not (p.op == "call" and p.a[0].endswith("LitStr::value") and unwrapped(p.a[1][0]) is unwrapped(spec)):
        return "the path is %s" % show(p)[:200]
    dirs = {t.a[0] for t in subterms(path.a[1][0]) if t.op == "call"}
    env = [t for t in subterms(path.a[1][0]) if t.op == "call" and t.a[0].startswith("std::env::var") and t.a[1][0] is lstr("CARGO_MANIFEST_DIR")]
    cwd = [t for t in subterms(path.a[1][0]) if t.op == "call" and t.a[0] == "std::env::current_dir"]
    tried = {a.a[0].a[0] for a, v in f.items() if a.op == "var" and v == 1 and a.a[0].op == "call" and a.a[0].a[0].startswith("std::env::var")}
    if not env and not (cwd and tried):
        return "the path is relative to %s" % show(path.a[1][0])[:200]
    # what is put out
    out = r.a[2][0]
    while out.op in ("call", "convert") and out.a[0] in ("convert", "into"):
        out = out.a[1][-1]
    ns = tree(out)
    code = fld(gt, 0, 0)
    if not any(n == ("h", code) for n in ns):
        return "the generated client is not put out"
    if "use progenitor :: progenitor_client ;" not in render(ns):
        return "the client library is not in scope"
    inc = [t for t in subterms(out) if t.op == "lit" and contains(t, lambda x: x is path)]
    if not inc or "include_str" not in render(ns):
        return "nothing makes the compiler look at the document again"
    return None


def cargo_settings(g, rep, runs, b):
    """the command line's interface and tag styles reach the generator"""
    AR, IA, TA, IS, TS = (g.A(n) for n in ("Args", "InterfaceArg", "TagArg", "InterfaceStyle", "TagStyle"))
    w = g.where(b)
    bad = None
    seen = set()
    checked, every = set(), set()
    for o, args in runs:
        gens = {t for x in [o.ret] + list(o.facts) for t in subterms(x) if t.op == "call" and t.a[0].endswith("Generator::new")}
        i, tg = g.get(args, AR, "interface"), g.get(args, AR, "tags")
        every |= gens
        # outcomes that were not joined with others
        if len(gens) == 1 and var(i) in o.facts and var(tg) in o.facts:
            checked |= gens
            for f, x in expand(next(iter(gens)).a[1][0], o.facts):
                base, calls = chain(x, f)
                if not show(base).startswith("default("):
                    bad = bad or "the settings start from %s" % show(base)[:200]
                want = {"with_interface": (None, lambda e, a, f: styled(g, a[0], i, f, IA, IS, ("Positional", "Builder"))),
                        "with_tag": (None, lambda e, a, f: styled(g, a[0], tg, f, TA, TS, ("Merged", "Separate")))}
                bad = bad or expect(calls, want, "", rep, w, "", f)
                seen |= {n for n, _, _, _ in calls}
    if every - checked:
        bad = bad or "a generator is made with %s" % show(next(iter(every - checked)))[:300]
    need(rep, "G19:cargo", bad is None and len(seen) == 2, "the command's interface and tag styles reach the generation settings, and nothing else is set", w, bad)


def styled(g, t, arg, f, A, S, names):
    t = resolve(t, f)
    if t.op == "phi":
        return all(styled(g, v, arg, merge_facts(f, dict(gd)), A, S, names) for gd, v in t.a[0] if merge_facts(f, dict(gd)) is not None)
    if t.op == "agg" and t.a[0] == S:
        k = f.get(var(arg))
        return any(k == g.vi(A, n) and t.a[1] == g.vi(S, n) for n in names)
    return False


def cargo_main(g):
    """outcomes of the command, the arguments, its body"""
    def run():
        o = set()
        for n in ("dependencies",):
            c = [k for k, b in g.E.bodies.items() if k.rsplit("::", 1)[-1] == n and not b.get("impl")]
            o.update(c)
        g.E.opaque_bodies = o
        b = g.free_fn("main")
        outs = g.run(b, [])
        runs = []
        for x in outs:
            parsed = {t for k in [x.ret] + list(x.facts) for t in subterms(k) if t.op == "call" and t.a[0].endswith("Parser::parse")}
            for p in parsed:
                runs.append((x, p))
        cli = [k for k in g.E.adts if k.rsplit("::", 1)[-1] == "CargoCli"]
        if cli:
            runs = [(x, fld(p, 0, 0)) for x, p in runs]
        return b, outs, runs, (sorted(o) or [None])[0]
    return g.memo("main", run)


def g19(s, rep):
    setters(s.impl, rep)
    type_settings(s.impl, rep)
    macro_settings(s.macro, rep)
    b, outs, runs, dep = cargo_main(s.cargo)
    cargo_settings(s.cargo, rep, runs, b)


# ---------------------------------------------------------------- G18
LOCAL = {"std", "core", "alloc", "types", "super", "self", "crate", "builder", "prelude", "operations", "progenitor_client"}
FLAGS = ("uses_futures", "uses_websockets")


def crate_words(s):
    """the crates that paths in a piece of generated text start with"""
    toks = [x for x in quote_models.lex(s)]
    out = set()
    for i, x in enumerate(toks[:-1]):
        if toks[i + 1] != "::" or not re.fullmatch(r"[a-z_][a-z0-9_]*", x):
            continue
        if i and toks[i - 1] == "::":
            q = toks[i - 2] if i > 1 else ""
            if re.fullmatch(r"\w+|>", q) and q not in ("use", "return", "let", "mut", "as", "in", "match", "if", "for", "dyn", "impl", "where", "else", "pub"):
                continue
        if x.upper().lower() not in KEYWORDS:
            out.add(x)
    return out - LOCAL - {"clippy", "rustfmt", "rustdoc"}


def mentions(t, facts, out, guards=()):
    """(crate, facts) for every crate the generated text names"""
    seen = set()
    work = [(resolve(t, facts), dict(facts))]
    while work:
        x, f = work.pop()
        k = (x, frozenset(f.items()))
        if k in seen:
            continue
        seen.add(k)
        if x.op == "phi":
            for gd, v in x.a[0]:
                m = merge_facts(f, dict(gd))
                if m is not None:
                    work.append((v, m))
            continue
        if x.op == "str":
            for c in crate_words(x.a[0]) if "::" in x.a[0] else ():
                out.append((c, f))
            continue
        if x.op in ("lit", "ident") or x.op == "call" and x.a[0].rsplit("::", 1)[-1] in ("make_doc_comment", "sanitize"):
            continue
        for y in kids_of(x):
            work.append((y, f))


def flags_only_set(g, rep):
    """nothing clears a flag"""
    G = g.adt("Generator")
    idx = {g.fi(G, n): n for n in FLAGS}
    E = g.E
    bad = {}
    isg = lambda t: t is not None and t.a[0] == "adt" and t.a[1] == G
    n = 0

    def flag(body, pl):
        t = E.ty(body["locals"][pl[0]])
        for e in pl[1]:
            if e == "*":
                t = E.deref_ty(t)
            elif e[0] == "f":
                if isg(t) and e[1] in idx:
                    return idx[e[1]]
                t = E.ty(e[2])
            else:
                t = None
                break
        return None

    def type_of_place(body, pl):
        t = E.ty(body["locals"][pl[0]])
        for e in pl[1]:
            t = E.deref_ty(t) if e == "*" else E.ty(e[2]) if e[0] == "f" else None
            if t is None:
                break
        return t

    def lent_slots(b, local, seen=()):
        """(closure, index) a borrowed flag is captured as"""
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], list) and s[2][1][0] == "closure":
                    for i, o in enumerate(s[2][2]):
                        if o[0] != "k" and o[1][0] == local and not o[1][1]:
                            yield s[2][1], i

    const_true = lambda r: r[0] == "use" and r[1][0] == "k" and isinstance(r[1][1], dict) and r[1][1].get("v") is True
    # `flag |= ..` keeps a set flag too
    keeps = lambda st: const_true(st[2]) or st[2][0] == "bin" and st[2][1] == "BitOr" and any(o[0] != "k" and o[1] == st[1] for o in st[2][2:4])
    for bid, b in E.bodies.items():
        lent = {}
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                f = flag(b, s[1])
                if s[1][1] and s[1][1][-1] == "*" and isg(type_of_place(b, s[1])):
                    for x in FLAGS:
                        bad.setdefault(x, b)
                if f:
                    n += 1
                    if not keeps(s):
                        bad.setdefault(f, b)
                if s[2][0] == "ref" and s[2][2] and (f := flag(b, s[2][1])):
                    lent[s[1][0]] = f
            t = blk["t"]
            if t[0] == "call" and (f := flag(b, t[3])):
                bad.setdefault(f, b)
        if not lent:
            continue
        # a flag lent to a closure: the closure sets it
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o[0] != "k" and o[1][0] in lent and not o[1][1]:
                        bad.setdefault(lent[o[1][0]], b)
        for local, f in lent.items():
            for tag, i in lent_slots(b, local):
                c = E.bodies.get(tag[1])
                if c is None:
                    bad.setdefault(f, b)
                    continue
                for blk in c["blocks"]:
                    for s in blk["s"]:
                        if s[0] == "=" and s[1][0] == 1 and any(e != "*" and e[0] == "f" and e[1] == i for e in s[1][1]) and not keeps(s):
                            bad.setdefault(f, c)
                        if s[0] == "=" and s[2][0] == "ref" and s[2][2] and s[2][1][0] == 1 and any(e != "*" and e[0] == "f" and e[1] == i for e in s[2][1][1]):
                            bad.setdefault(f, c)
    for f in FLAGS:
        c = bad.get(f)
        need(rep, "G18:flag:%s:kept" % f, c is None, "once generated code needs a crate, that is not forgotten", "%s:%s %s" % (c["file"], c["line"], c["path"]) if c else g.where(g.method(G, f)[0]), "it is changed to something else here")
        b = g.method(G, f)[0]
        g.opaque()
        outs = g.run(b, [sym("g")])
        need(rep, "G18:flag:%s:get" % f, len(outs) == 1 and outs[0].ret is g.get(sym("g"), G, f), "the generator tells whether generated code needs the crate", g.where(b), "%s" % [show(o.ret)[:100] for o in outs])
    b = g.method(G, "get_type_space")[0]
    outs = g.run(b, [sym("g")])
    need(rep, "G18:types:get", len(outs) == 1 and outs[0].ret is g.get(sym("g"), G, "type_space"), "the generator gives out the type space it generated types in", g.where(b), "%s" % [show(o.ret)[:100] for o in outs])


NEEDS_FLAG = {"futures": "uses_futures", "base64": "uses_websockets", "rand": "uses_websockets"}


def flag_value(g, st, flag, f):
    """a flag of the generator; as nothing clears it, calls leave a set one set"""
    G = g.adt("Generator")
    st = resolve(st, f)
    while True:
        if st.op == "upd":
            st = st.a[2]
        elif st.op == "fold" and resolve(g.get(st.a[2], G, flag), f) is TRUE:
            st = st.a[2]
        else:
            v = resolve(g.get(st, G, flag), f)
            if v.op == "fld" and v.a[0] is not st and v.a[0].op in ("upd", "fold"):
                st = v.a[0]
                continue
            return v


def needed_crates(g, rep, always):
    """the crates that generated code names, against the flags set by then"""
    G, OM = g.adt("Generator"), g.adt("OperationMethod")
    found = []   # (function, crate, ok, detail)
    H = g.adt("HttpMethod")

    def check(name, b, outs, cell, implied=()):
        for o in outs:
            if o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] != 0:
                continue
            ms = []
            mentions(o.ret, o.facts, ms)
            st = g.E.full(o.st, cell) if cell is not None else None
            for c, f in ms:
                flag = NEEDS_FLAG.get(c)
                if c in always:
                    found.append((name, b, c, None))
                elif flag is None:
                    found.append((name, b, c, "nothing makes cargo-progenitor list %s" % c))
                else:
                    v = flag_value(g, st, flag, f) if st is not None else None
                    ok = flag in implied or v is not None and v.op == "bool" and v.a[0] is True
                    found.append((name, b, c, None if ok else "%s is not set when %s" % (flag, cond(f)[:300])))

    for which in ("positional_method", "builder_struct"):
        g.opaque(free=("unique_ident_from", "sanitize", "make_doc_comment", "make_stream_doc_comment"), gen=("method_sig_body",))
        b = g.method(G, which)[0]
        m = g.struct("OperationMethod", "m", method=agg(H, g.vi(H, "Get"), ()), tags=mk("seq", ()))
        args = [m, sym("inner")] if which == "positional_method" else [m, sym("tag_style"), sym("inner")]
        st = St()
        cell = g.E.newref(st, sym("g"))
        check(which, b, g.run(b, [cell] + args, st=st), cell)
    for ws in (False, True):
        outs, m = g.signature(websocket=ws)
        check("method_sig_body", g.method(G, "method_sig_body")[0], outs, None, ("uses_websockets",) if ws else ())
    for n, b, outs in generators(g):
        if n == "generate_tokens":
            check(n, b, outs, None)
    for n in ("generate_tokens_positional_merged", "generate_tokens_builder_merged", "generate_tokens_builder_separate"):
        if not g.inherent(G, n):
            continue
        b = g.method(G, n)[0]
        g.opaque(free=("sanitize",), gen=[m for m in ("positional_method", "builder_struct", "builder_impl", "builder_tags") if g.inherent(G, m)])
        st = St()
        cell = g.E.newref(st, sym("g"))
        k = g.E.bodies[b]["argc"]
        check(n, b, g.run(b, [cell] + [sym("arg%d" % i) for i in range(1, k)], st=st), cell)
    for c in sorted({x[2] for x in found}):
        bad = [x for x in found if x[2] == c and x[3]]
        x = (bad or [x for x in found if x[2] == c])[0]
        need(rep, "G18:needed:%s" % c, not bad, "code is generated that names a crate only if the stand-alone crate will depend on it", g.where(x[1]), x[3])
    for flag in FLAGS:
        need(rep, "G18:needed:%s" % flag, any(NEEDS_FLAG.get(x[2]) == flag for x in found), "the crates behind the flag were met in generated code", g.where(g.method(G, flag)[0]))
    # an operation that upgrades its connection is known to be one
    g.opaque(free=("sanitize", "parse"), gen=("get_body_param", "dropshot_pagination_data"), traits=("ToSchema", "Convert", "ReferenceOrExt", "FromStr"))
    b = g.method(G, "process_operation")[0]
    st = St()
    cell = g.E.newref(st, sym("gen"))
    bad = None
    n = 0
    for o in g.run(b, [cell, sym("op"), sym("components"), sym("path"), sym("method"), sym("path_params")], st=st):
        for f, r in choices(o.ret, o.facts):
            if r.op != "agg" or r.a[1] != 0:
                continue
            v = resolve(g.get(fld(r, 0, 0), OM, "dropshot_websocket"), f)
            fl = flag_value(g, g.E.full(o.st, cell), "uses_websockets", f)
            if v.op == "bool" and v.a[0] is False:
                continue
            n += 1
            if not (fl.op == "bool" and fl.a[0] is True):
                # not yet decided: the flag must be true whenever the operation is one
                if v.op != "bool" and same_under(v, fl, f):
                    continue
                bad = "uses_websockets is %s when %s" % (show(fl)[:100], cond(f)[:300])
    need(rep, "G18:needed:websocket", n > 0 and bad is None, "an operation that upgrades its connection makes the generator need the crates for it", g.where(b), bad)


def same_under(v, fl, f):
    for x in (True,):
        m = dict(f)
        m[v] = x
        r = resolve(fl, m)
        if not (r.op == "bool" and r.a[0] is True):
            return False
    return True


def toml_of(t, f, holes):
    """the text with what is not fixed in it replaced by marks"""
    out = []
    for p in pieces(resolve(t, f)):
        if p.op == "str":
            out.append(p.a[0])
        elif p.op == "lit":
            raise Unsupported("a token in a manifest")
        else:
            x = text_of(p)
            if x.op == "str":
                out.append(x.a[0])
                continue
            holes.append(x)
            out.append("@%d@" % (len(holes) - 1))
    return "".join(out)


def dep_lines(t, f):
    """the dependency lines a list holds"""
    t = resolve(t, f)
    while t.op == "upd" and t.a[0].rsplit("::", 1)[-1] in ("sort_unstable", "sort", "dedup", "sort_by", "reverse"):
        t = t.a[2]
    if t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("sorted",):
        t = t.a[1][0]
    if t.op == "mapof":
        t = t.a[1]
    if t.op != "seq":
        raise Unsupported("the dependencies are %s" % show(t)[:200])
    return t.a[0]


def dependency_sets(g):
    """[(facts, {crate: requirement}, what is wrong with the text)]"""
    b, outs, runs, dep = cargo_main(g)
    if dep is None:
        return None, []
    g.E.opaque_bodies = set()
    res = []
    for o in g.run(dep, [sym("builder"), sym("include")]):
        for f, r in expand(o.ret, o.facts):
            text, wrong = [], None
            for x in dep_lines(r, f):
                if x.op != "e":
                    raise Unsupported("the dependencies are %s" % show(x)[:200])
                text.append(toml_of(x.a[0], f, []))
            try:
                d = tomllib.loads("\n".join(text))
            except tomllib.TOMLDecodeError as e:
                d, wrong = {}, "%s in %s" % (e, text)
            res.append((f, d, wrong))
    return dep, res


def is_fact(f, name, of=None):
    """is a question asked of the type space or generator answered: True, False, None"""
    for a, v in f.items():
        if a.op == "call" and a.a[0].rsplit("::", 1)[-1] == name:
            return v
    return None


QUESTIONS = {"uses_regress": ("regress",), "uses_uuid": ("uuid",), "uses_chrono": ("chrono",), "uses_futures": ("futures",), "uses_websockets": ("base64", "rand"), "uses_serde_json": ("serde_json",)}


def dependencies(s, rep):
    g = s.cargo
    dep, sets = dependency_sets(g)
    if dep is None:
        raise Missing("function dependencies")
    w = g.where(dep)
    import specs_client
    runtime = tomllib.loads("\n".join(specs_client.STANDALONE_DEPS))
    bad = {}
    inc = sym("include")
    for f, d, wrong in sets:
        if wrong:
            bad.setdefault("text", wrong)
            continue
        for c in ("reqwest", "serde"):
            if c not in d:
                bad.setdefault("base", "%s is not listed when %s" % (c, cond(f)[:300]))
        for q, cs in QUESTIONS.items():
            v = is_fact(f, q)
            for c in cs:
                if c not in d and v is not False:
                    bad.setdefault(q, "%s is not listed when %s" % (c, cond(f)[:300]))
        i = f.get(inc)
        if i is not True and "progenitor-client" not in d:
            bad.setdefault("client", "progenitor-client is not listed when %s" % cond(f)[:300])
        if i is not False:
            for c, v in runtime.items():
                if c not in d:
                    bad.setdefault("included", "%s is not listed when %s" % (c, cond(f)[:300]))
                elif not covers(d[c], v):
                    bad.setdefault("included", "%s is listed as %s, but the client needs %s" % (c, d[c], v))
    for f, d, wrong in sets:
        u = d.get("uuid")
        if isinstance(u, dict) and "serde" not in u.get("features", ()):
            bad.setdefault("uses_uuid", "uuid lacks serde: %s" % u)
        u = d.get("chrono")
        if u is not None and not (isinstance(u, dict) and "serde" in u.get("features", ())):
            bad.setdefault("uses_chrono", "chrono lacks serde: %s" % u)
    need(rep, "G18:deps:text", bool(sets) and "text" not in bad, "the dependencies are well formed, and none is listed twice", w, bad.get("text"))
    need(rep, "G18:deps:base", "base" not in bad, "the crates every client needs are listed", w, bad.get("base"))
    for q, cs in QUESTIONS.items():
        need(rep, "G18:deps:%s" % q, q not in bad, "%s is listed if generated code needs it" % " and ".join(cs), w, bad.get(q))
    need(rep, "G18:deps:client", "client" not in bad, "the client library is a dependency unless its source is included", w, bad.get("client"))
    need(rep, "G18:deps:included", "included" not in bad, "what the client library's source needs is listed if that source is included", w, bad.get("included"))
    return [set(d) for f, d, _ in sets]


def covers(have, want):
    h = have if isinstance(have, dict) else {"version": have}
    v = want if isinstance(want, dict) else {"version": want}
    a, b = h.get("version", "*").lstrip("^"), v["version"]
    if a != "*":
        x, y = a.split("."), b.split(".")
        k = 2 if y[0] == "0" else 1
        if x[:k] != y[:k]:
            return False
    fs = set(h.get("features", ()))
    return set(v.get("features", ())) <= fs


def files_written(o):
    """[(path, text)] of the files whose writing an outcome reports to have succeeded"""
    out = []
    for a, v in o.facts.items():
        if a.op != "var" or v != 0 or a.a[0].op != "call":
            continue
        t = a.a[0]
        n = t.a[0].rsplit("::", 1)[-1]
        if t.a[0] in ("std::fs::write",):
            out.append((t.a[1][0], t.a[1][1], None))
        elif n == "write_all" and len(t.a[1]) == 2:
            f = t.a[1][0]
            while f.op == "call" and f.a[0].rsplit("::", 1)[-1] == "new":   # a buffered writer
                f = f.a[1][-1]
            if f.op == "fld" and f.a[0].op == "call":
                x = f.a[0]
                m = x.a[0]
                if m.endswith("OpenOptions::open"):
                    _, cs = chain_any(x.a[1][0])
                    on = {c for c, args in cs if args and args[0] is TRUE}
                    miss = {"write", "create", "truncate"} - on
                    out.append((x.a[1][1], t.a[1][1], "it is opened without %s" % sorted(miss) if miss else None))
                    continue
                if m.endswith("File::create"):
                    out.append((x.a[1][0], t.a[1][1], None))
                    continue
            out.append((None, t.a[1][1], "it is written to %s" % show(f)[:200]))
    return out


def chain_any(t):
    if t.op == "upd":
        b, c = chain_any(t.a[2])
        return b, c + [(t.a[0].rsplit("::", 1)[-1], t.a[3])]
    if t.op == "call" and len(t.a[1]) == 2:
        b, c = chain_any(t.a[1][0])
        return b, c + [(t.a[0].rsplit("::", 1)[-1], t.a[1][1:])]
    return t, []


def path_parts(t):
    """(base, names) of a path"""
    t = unwrapped(t)
    if t.op == "upd" and t.a[0].endswith("PathBuf::push"):
        b, n = path_parts(t.a[2])
        return b, n + [t.a[3][0]]
    if t.op == "call" and t.a[0].endswith("Path::join"):
        b, n = path_parts(t.a[1][0])
        return b, n + [t.a[1][1]]
    if t.op == "call" and (t.a[0] in ("convert",) or t.a[0].rsplit("::", 1)[-1] in ("new", "from", "to_path_buf", "as_path", "as_ref")):
        return path_parts(t.a[1][-1])
    return t, []


def crate_written(s, rep):
    g = s.cargo
    b, outs, runs, dep = cargo_main(g)
    w = g.where(b)
    AR = g.A("Args")
    bad = {}
    n = 0
    for o in outs:
        if o.ret.op == "agg" and o.ret.a[0] == RES and o.ret.a[1] == 1:
            continue
        n += 1
        parsed = {t for k in o.facts for t in subterms(k) if t.op == "call" and t.a[0].endswith("Parser::parse")}
        if len(parsed) != 1:
            bad.setdefault("manifest", "nothing is read from the command line")
            continue
        args = fld(next(iter(parsed)), 0, 0)
        A = lambda x: g.get(args, AR, x)
        incl = o.facts.get(A("include_client"))
        ways = {}
        for p, text, wrong in files_written(o):
            if p is None:
                bad.setdefault("manifest", wrong)
                continue
            base, parts = path_parts(resolve(p, o.facts))
            name = "/".join(x.a[0] if x.op == "str" else "?" for x in parts)
            if base is not A("output"):
                bad.setdefault("manifest", "%s is written in %s" % (name, show(base)[:100]))
            if wrong:
                bad.setdefault("whole", "%s: %s" % (name, wrong))
            ways.setdefault(name, []).append(text)
        if "Cargo.toml" not in ways or "src/lib.rs" not in ways:
            bad.setdefault("manifest", "the files written are %s when %s" % (sorted(ways), cond(o.facts)[:200]))
            continue
        for text in ways["Cargo.toml"]:
            for f, t in expand(text, o.facts):
                c = manifest(g, A, f, t, dep)
                if c:
                    bad.setdefault("manifest", c)
        for text in ways["src/lib.rs"]:
            for f, t in expand(text, o.facts):
                c = source(g, A, f, t)
                if c:
                    bad.setdefault("source", c)
        for f, _ in expand(A("include_client"), o.facts):
            v = f.get(A("include_client"), incl)
            has = "src/progenitor_client.rs" in ways
            if v is None or has != v:
                bad.setdefault("client", "the client's source is %swritten when %s" % ("" if has else "not ", cond(o.facts)[-200:]))
        for t in ways.get("src/progenitor_client.rs", ()):
            if not (t.op == "call" and t.a[0] == "progenitor_client::code"):
                bad.setdefault("client", "src/progenitor_client.rs holds %s" % show(t)[:200])
    need(rep, "G18:crate:manifest", n and "manifest" not in bad, "the manifest has the name, version, licence and registry asked for, the 2021 edition, and the dependencies of the code generated", w, bad.get("manifest"))
    need(rep, "G18:crate:source", n and "source" not in bad, "the crate's source is the generated client, with the client library as a module exactly if it is included", w, bad.get("source"))
    need(rep, "G18:crate:client", n and "client" not in bad, "the client library's own source is written exactly if it is to be included", w, bad.get("client"))
    need(rep, "G18:crate:whole", n and "whole" not in bad, "a file of an earlier run is replaced as a whole", w, bad.get("whole"))
    failed = {a.a[0].a[0].rsplit("::", 1)[-1] for o in outs if o.ret.op == "agg" and o.ret.a[1] == 0 for a, v in o.facts.items() if a.op == "var" and v == 1 and a.a[0].op == "call" and (a.a[0].a[0].startswith("std::fs") or a.a[0].a[0].startswith("serde_yaml") or a.a[0].a[0].endswith("generate_tokens") or a.a[0].a[0].startswith("core::io"))}
    need(rep, "G18:crate:errors", not failed, "no failure to read, generate or write is passed over", w, "%s may fail unnoticed" % sorted(failed))


def generated(t):
    """the document-processing call behind a text of generated code"""
    x = [y for y in subterms(t) if y.op == "call" and y.a[0].endswith("Generator::generate_tokens")]
    return set(x)


def manifest(g, A, f, t, dep):
    t = resolve(t, f)
    holes = []
    parts = []
    deps = None
    for p in pieces(t):
        if p.op == "str":
            parts.append(p.a[0])
            continue
        x = text_of(p)
        calls = [y for y in subterms(x) if y.op == "call" and y.a[0] == dep]
        if calls:
            if deps is not None:
                return "the dependencies are listed twice"
            j = x
            if not (j.op == "join" and lstr("\n") in j.a or j.op == "call" and j.a[0].rsplit("::", 1)[-1] in ("join", "concat") and j.a[1][-1] is lstr("\n")):
                return "the dependencies are put as %s" % show(x)[:200]
            deps = calls[0]
            parts.append('deps = "@@"')
            continue
        holes.append(x)
        parts.append("@%d@" % (len(holes) - 1))
    try:
        d = tomllib.loads("".join(parts))
    except tomllib.TOMLDecodeError as e:
        return "%s in %s" % (e, "".join(parts)[:300])
    val = lambda v: holes[int(m.group(1))] if isinstance(v, str) and (m := re.fullmatch(r"@(\d+)@", v)) else v
    pk = d.get("package", {})
    for k, a in (("name", "name"), ("version", "version"), ("license", "license_name")):
        if val(pk.get(k)) is not A(a):
            return "the %s is %s" % (k, val(pk.get(k)))
    if pk.get("edition") != "2021":
        return "the edition is %s" % pk.get("edition")
    reg = f.get(var(A("registry_name")))
    pub = pk.get("publish")
    if reg == 1 and not (isinstance(pub, list) and len(pub) == 1 and val(pub[0]) is fld(A("registry_name"), 1, 0)) or reg == 0 and pub is not None or reg is None:
        return "it may be published to %s when %s" % (pub, cond(f)[:200])
    if deps is None or d.get("dependencies") != {"deps": "@@"}:
        return "the dependencies are %s" % d.get("dependencies")
    bld, inc = deps.a[1][0], deps.a[1][1]
    if inc is not A("include_client"):
        i = resolve(inc, f)
        if not (i.op == "bool" and f.get(A("include_client")) == i.a[0]):
            return "the dependencies are those for %s" % show(inc)[:100]
    if not (bld.op == "upd" and bld.a[0].endswith("generate_tokens") and bld.a[1] == 0):
        return "the dependencies are those of %s" % show(bld)[:200]
    return None


def source(g, A, f, t):
    t = resolve(t, f)
    while not (t.op in ("cat", "disp", "str")):
        if t.op == "fld" and t.a[1] == 0:
            t = t.a[0]
        elif t.op == "call" and t.a[0].rsplit("::", 1)[-1] in ("space_out_items", "rustfmt_config", "rustfmt", "as_str", "as_bytes", "unwrap"):
            if t.a[0].rsplit("::", 1)[-1] in ("rustfmt", "space_out_items", "rustfmt_config") and f.get(var(t), 0) != 0:
                return "it is unformatted"
            t = t.a[1][-1]
        elif t.op == "tokens" or t.op == "call" and t.a[0].endswith("generate_tokens"):
            break
        elif text_of(t) is not t:
            t = text_of(t)
        else:
            return "it is %s" % show(t)[:200]
    t = text_of(t)
    ps = list(pieces(t)) if t.op == "cat" else [t]
    lead = "".join(p.a[0] for p in ps[:-1] if p.op == "str")
    if any(p.op != "str" for p in ps[:-1]):
        return "it is %s" % show(t)[:300]
    code = text_of(ps[-1])
    while code.op == "call" and code.a[0] in ("convert", "into", "text"):
        code = text_of(code.a[1][-1])
    if not (code.op == "fld" and code.a[0].op == "call" and code.a[0].a[0].endswith("Generator::generate_tokens")):
        return "it is %s" % show(code)[:300]
    has = lead.split() == ["mod", "progenitor_client;"]
    inc = f.get(A("include_client"))
    if lead.split() and not has or inc is None or has != inc:
        return "it starts with `%s` when the client is %sincluded" % (lead, "" if inc else "not ")
    return None


def g18(s, rep):
    flags_only_set(s.impl, rep)
    sets = dependencies(s, rep)
    always = set.intersection(*sets) if sets else set()
    needed_crates(s.impl, rep, {c.replace("-", "_") for c in always})
    crate_written(s, rep)
