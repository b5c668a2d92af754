"""Semantics of the library functions the analysed code uses, over provenance terms."""
from terms import *
from interp import T, tref, strip_refs, NeedSplit, Unsupported, INT_RANGES, Call

M = {}
PM = []


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def install(E):
    E.models.update(M)
    E.pmodels.extend(PM)


def ident(E, st, c):
    return [(st, c.args[0])]


def val_ident(E, st, c):
    """value semantics: result is the (dereferenced) value itself"""
    return [(st, E.deref(st, c.args[0]))]


for n in ["core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut",
          "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut",
          "core::future::into_future::IntoFuture::into_future", "core::future::get_context",
          "core::pin::Pin::new_unchecked", "core::pin::Pin::new", "core::pin::Pin::as_mut", "core::pin::Pin::as_ref", "core::pin::Pin::get_mut", "core::pin::Pin::into_inner",
          "core::option::Option::as_deref", "core::option::Option::as_deref_mut", "core::option::Option::as_ref", "core::option::Option::as_mut", "core::option::Option::copied", "core::option::Option::cloned",
          "core::result::Result::as_ref", "core::result::Result::as_mut", "core::result::Result::as_deref",
          "core::hint::black_box", "core::mem::ManuallyDrop::new",
          "alloc::string::String::as_str", "alloc::string::String::as_mut_str", "alloc::string::String::into_boxed_str", "alloc::string::String::as_bytes_", "alloc::vec::Vec::as_slice", "alloc::vec::Vec::as_mut_slice", "alloc::vec::Vec::into_boxed_slice",
          "alloc::boxed::Box::into_pin", "alloc::boxed::Box::leak", "alloc::boxed::Box::as_ref",
          "slice::into_vec", "alloc::slice::into_vec",
          "core::iter::traits::iterator::Iterator::by_ref", "core::iter::traits::iterator::Iterator::copied", "core::iter::traits::iterator::Iterator::cloned", "core::iter::traits::iterator::Iterator::fuse",
          "core::mem::drop_", "alloc::string::String::into_bytes", "str::as_bytes", "str::as_str",
          "core::intrinsics::likely", "core::convert::identity",
          "slice::as_ref", "slice::as_slice"]:
    M[n] = ident

for n in ["core::clone::Clone::clone", "alloc::borrow::ToOwned::to_owned", "alloc::borrow::Cow::into_owned", "alloc::borrow::Cow::to_mut",
          "alloc::string::String::into_string", "str::into_string", "str::to_owned", "slice::to_vec",
          "alloc::slice::to_vec", "bytes::bytes::Bytes::copy_from_slice", "bytes::bytes::Bytes::from_static", "bytes::bytes::Bytes::to_vec"]:
    M[n] = val_ident


@model("alloc::boxed::Box::new", "alloc::boxed::Box::pin", "alloc::rc::Rc::new", "alloc::sync::Arc::new")
def box_new(E, st, c):
    return [(st, E.newref(st, c.args[0]))]


@model("alloc::boxed::Box::new_uninit")
def box_uninit(E, st, c):
    return [(st, E.newref(st, mk("bottom")))]


@model("core::mem::take")
def mem_take(E, st, c):
    r = c.args[0]
    v = E.deref(st, r)
    outs = []
    ty = c.targs[0]
    for s, d in default_value(E, st, ty):
        store_through(E, s, r, d)
        outs.append((s, v))
    return outs


def default_value(E, st, ty):
    ty = strip_refs(ty)
    if ty.a[0] == "prim":
        if ty.a[1] == "bool":
            return [(st, FALSE)]
        if ty.a[1] == "str":
            return [(st, lstr(""))]
        if ty.a[1] in INT_RANGES:
            return [(st, lint(0))]
    if ty.a[0] == "adt":
        if ty.a[1] == "alloc::string::String":
            return [(st, lstr(""))]
        if ty.a[1] == OPT:
            return [(st, NONE)]
        if ty.a[1] in SEQTYPES:
            return [(st, mk("seq", ()))]
        if ty.a[1] in MAPTYPES:
            return [(st, mk("map", ty.a[1], ()))]
        if ty.a[1] == "alloc::boxed::Box":
            return [(s, E.newref(s, v)) for s, v in default_value(E, st, ty.a[2][0])]
        if ty.a[1].startswith(SCHEMARS) and ty.a[1] in E.adts:
            return [(st, schemars_default(E, ty.a[1]))]
    if ty.a[0] == "tuple":
        out = [(st, [])]
        for t in ty.a[1]:
            n = []
            for s, l in out:
                for s2, v in default_value(E, s, t):
                    n.append((s2, l + [v]))
            out = n
        return [(s, tup(*l)) for s, l in out]
    if E.find_impls("core::default::Default", (ty,)):
        return E.call_trait(st, "core::default::Default", "default", (ty,), [], None)
    if ty.a[0] == "adt" and ty.a[1] == "proc_macro2::TokenStream":
        return [(st, lstr(""))]
    return [(st, call("default", mk("tyname", ty)))]


# schemars' schema model: plain structs whose Default and PartialEq are derived
SCHEMARS = "schemars::schema::"
BTREE = "alloc::collections::btree::map::BTreeMap"
SCHEMARS_OTHER = dict(deprecated=FALSE, read_only=FALSE, write_only=FALSE, examples=mk("seq", ()), extensions=mk("map", BTREE, ()),
                      properties=mk("map", BTREE, ()), pattern_properties=mk("map", BTREE, ()), required=mk("map", "alloc::collections::btree::set::BTreeSet", ()))


def schemars_default(E, name):
    return agg(name, 0, [SCHEMARS_OTHER.get(f[0], NONE) for f in E.adts[name]["variants"][0]["fields"]])


def empty_coll(v):
    return (v.op == "seq" and not v.a[0]) or (v.op == "map" and not v.a[1]) or (v.op == "mapof" and empty_coll(v.a[1]))


def is_empty_coll(E, st, v):
    """is the collection empty? (the state decides it)"""
    v = E.simp(st, E.deref(st, v))
    if v.op == "phi":
        raise NeedSplit("phi", v)
    if v.op == "mapof":
        return is_empty_coll(E, st, v.a[1])
    if empty_coll(v):
        return True
    if v.op == "seq":
        for x in v.a[0]:
            if x.op == "e":
                return False
            if x.op == "star":
                body = x.a[2]
                if not (body.op == "seq" and any(y.op == "e" for y in body.a[0])) or x.a[0].op != "iter":
                    raise Unsupported("whether there are elements in %s" % show(x)[:100])
                if not is_empty_coll(E, st, x.a[0].a[0]):
                    return False
            elif not is_empty_coll(E, st, x.a[0]):
                return False
        return True
    if v.op in ("array", "bytes") or (v.op == "agg" and v.a[0] == "array"):
        return not E.concrete_items(v)
    v = E.full(st, v)
    if v.op == "call" and v.a[0] == "indexmap::map::IndexMap::iter":
        v = v.a[1][0]
    return E.truth(st, call("is_empty", v))


def schemars_eq(E, st, a, b):
    """are the two equal? (the state decides it, one field after the other)"""
    for x, y in zip(a.a[2], b.a[2]):
        x, y = E.simp(st, E.deref(st, x)), E.simp(st, E.deref(st, y))
        if x is y:
            continue
        if x.op == "phi":
            raise NeedSplit("phi", x)
        if y.op == "phi":
            raise NeedSplit("phi", y)
        if x is NONE or y is NONE:
            r = E.variant(st, y if x is NONE else x, OPT, 2) == 0
        elif empty_coll(x) or empty_coll(y):
            r = is_empty_coll(E, st, y if empty_coll(x) else x)
        else:
            r = E.truth(st, E.eqterm(E.full(st, x), E.full(st, y)))
        if not r:
            return FALSE
    return TRUE


@model("core::option::Option::get_or_insert_with", "core::option::Option::get_or_insert", "core::option::Option::get_or_insert_default", "core::option::Option::insert")
def get_or_insert(E, st, c):
    nm = c.cn.rsplit("::", 1)[1]
    r = c.args[0]
    if r.op != "ref":
        raise Unsupported("%s on %s" % (nm, show(r)[:100]))
    if nm != "insert" and E.variant(st, r, OPT, 2) == 1:
        return [(st, mk("ref", r.a[0], r.a[1] + ((1, 0),)))]
    if nm == "get_or_insert_with":
        outs = cl(E, st, c, c.args[1])
    elif nm == "get_or_insert_default":
        outs = default_value(E, st, c.targs[0])
    else:
        outs = [(st, c.args[1])]
    res = []
    for s, v in outs:
        s = s.copy()
        store_through(E, s, r, some(v))
        res.append((s, mk("ref", r.a[0], r.a[1] + ((1, 0),))))
    return res


def schemars_part(E, st, c):
    """so.string() and the like: the validation, made if there is none"""
    nm = c.cn.rsplit("::", 1)[1]
    a = SCHEMARS + "SchemaObject"
    i = [f[0] for f in E.adts[a]["variants"][0]["fields"]].index(nm)
    r = c.args[0]
    if r.op != "ref":
        raise Unsupported("%s of %s" % (nm, show(r)[:100]))
    p = mk("ref", r.a[0], r.a[1] + ((0, i),))
    if E.variant(st, p, OPT, 2) == 0:
        kind = dict(metadata="Metadata", subschemas="SubschemaValidation").get(nm, nm.capitalize() + "Validation")
        st = st.copy()
        E.write(st, p.a[0], p.a[1], some(schemars_default(E, SCHEMARS + kind)))
    return [(st, mk("ref", p.a[0], p.a[1] + ((1, 0),)))]


for _n in ("metadata", "subschemas", "number", "string", "array", "object"):
    M[SCHEMARS + "SchemaObject::" + _n] = schemars_part


@model(SCHEMARS + "SchemaObject::new_ref")
def new_ref(E, st, c):
    a = SCHEMARS + "SchemaObject"
    d = schemars_default(E, a)
    return [(st, with_(d, 0, [f[0] for f in E.adts[a]["variants"][0]["fields"]].index("reference"), some(c.args[0])))]


@model(SCHEMARS + "Schema::new_ref")
def new_ref_schema(E, st, c):
    return [(s, agg(SCHEMARS + "Schema", 1, [v])) for s, v in new_ref(E, st, c)]


SEQTYPES = {"alloc::vec::Vec", "alloc::collections::vec_deque::VecDeque"}
MAPTYPES = {"std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap", "indexmap::map::IndexMap",
            "std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet", "indexmap::set::IndexSet"}


@model("core::default::Default::default")
def default(E, st, c):
    return default_value(E, st, c.targs[0])


def store_through(E, st, r, v):
    """write v to the location a reference value designates"""
    if r.op == "agg" and r.a[0] == ("slot",):
        # a value of a map under a key
        raise Unsupported("a map entry is overwritten")
    if r.op != "ref":
        raise Unsupported("write through %s" % show(r)[:200])
    loc, path = r.a
    tgt = E.read(st, loc, path)
    while tgt.op == "ref":
        loc, path = tgt.a
        tgt = E.read(st, loc, path)
    E.write(st, loc, path, v)


@model("core::mem::replace")
def mem_replace(E, st, c):
    v = E.deref(st, c.args[0])
    store_through(E, st, c.args[0], c.args[1])
    return [(st, v)]


@model("core::mem::swap")
def mem_swap(E, st, c):
    a, b = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    store_through(E, st, c.args[0], b)
    store_through(E, st, c.args[1], a)
    return [(st, UNIT)]


@model("core::mem::drop", "core::mem::forget")
def mem_drop(E, st, c):
    return [(st, UNIT)]


# ------------------------------------------------------------------ Option / Result
def rv(E, st, v):
    """variant of a Result value"""
    return E.variant(st, v, RES, 2)


def pay(E, st, v, i):
    return E.simp(st, fld(E.deref(st, v), i, 0))


def cl(E, st, c, f, *args):
    return E.call_value(st, f, list(args), c.fr, c.line)


def mapres(rs, f):
    return [(s, f(v)) for s, v in rs]


@model("core::ops::try_trait::Try::branch")
def try_branch(E, st, c):
    t = c.targs[0]
    v = c.args[0]
    if t.a[0] == "adt" and t.a[1] == OPT:
        if E.variant(st, v, OPT, 2) == 1:
            return [(st, agg(CF, 0, (pay(E, st, v, 1),)))]
        return [(st, agg(CF, 1, (NONE,)))]
    if t.a[0] == "adt" and t.a[1] == RES:
        if rv(E, st, v) == 0:
            return [(st, agg(CF, 0, (pay(E, st, v, 0),)))]
        return [(st, agg(CF, 1, (err(pay(E, st, v, 1)),)))]
    return None


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(E, st, c):
    t = c.targs[0]
    if t.a[0] == "adt" and t.a[1] == OPT:
        return [(st, NONE)]
    if t.a[0] == "adt" and t.a[1] == RES:
        e = pay(E, st, c.args[0], 1)
        rt = c.targs[1]
        et = rt.a[2][1] if rt is not None and rt.a[0] == "adt" else None
        tt = t.a[2][1]
        return mapres(convert(E, st, c, et, tt, e), err)
    return None


@model("core::ops::try_trait::Try::from_output")
def from_output(E, st, c):
    t = c.targs[0]
    if t.a[1] == OPT:
        return [(st, some(c.args[0]))]
    if t.a[1] == RES:
        return [(st, ok(c.args[0]))]
    return None


STRTYPES = {"alloc::string::String", "alloc::borrow::Cow"}


def is_str(t):
    t = strip_refs(t)
    if t.a[0] == "prim" and t.a[1] == "str":
        return True
    if t.a[0] == "adt":
        if t.a[1] == "alloc::string::String":
            return True
        if t.a[1] in ("alloc::borrow::Cow", "alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc"):
            xs = [x for x in t.a[2] if x is not None]
            return bool(xs) and is_str(xs[0])
    return False


def convert(E, st, c, ft, tt, v):
    """<tt as From<ft>>::from(v)"""
    if ft is None or ft is tt:
        return [(st, v)]
    if E.find_impls("core::convert::From", (tt, ft)):
        return E.call_trait(st, "core::convert::From", "from", (tt, ft), [v], c.fr, c.line, [ft])
    if is_str(tt) and (is_str(ft) or strip_refs(ft).a[:2] == ("prim", "char")):
        w = E.deref(st, v)
        return [(st, lstr(w.a[0]) if w.op == "char" else w)]
    if tt.a[0] == "adt":
        if tt.a[1] == OPT and tt.a[2][0] is ft:
            return [(st, some(v))]
        if tt.a[1] in ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc"):
            if tt.a[2][0] is ft:
                return [(st, E.newref(st, v))]
        if tt.a[1] in SEQTYPES or tt.a[1] == "bytes::bytes::Bytes":
            return [(st, v)]
        if tt.a[1] == SCHEMARS + "Schema" and ft.a[0] == "adt" and ft.a[1] == SCHEMARS + "SchemaObject":
            return [(st, agg(tt.a[1], 1, [v]))]
        if tt.a[1] == SCHEMARS + "Schema" and ft.a[:2] == ("prim", "bool"):
            return [(st, agg(tt.a[1], 0, [v]))]
        if tt.a[1] == SCHEMARS + "SingleOrVec":
            return [(st, agg(tt.a[1], 1 if ft.a[0] == "adt" and ft.a[1] in SEQTYPES else 0, [v]))]
        if tt.a[1] == "alloc::string::String" and ft.a[0] == "adt" and ft.a[1] == "percent_encoding::PercentEncode":
            return [(st, E.full(st, v))]
        if tt.a[1] == "alloc::borrow::Cow" and ft.a[0] == "adt" and ft.a[1] == "percent_encoding::PercentEncode":
            return [(st, E.full(st, v))]
    if tt.a[0] == "prim" and ft.a[0] == "prim" and tt.a[1] in INT_RANGES and ft.a[1] in INT_RANGES:
        return [(st, v)]
    if tt.a[:2] == ("prim", "f64") and ft.a[:2] == ("prim", "f32"):
        return [(st, mk("cast", E.full(st, v), tt))]
    if ft.a[0] == "adt" and ft.a[1] == "http::status::StatusCode" and tt.a[:2] == ("prim", "u16"):
        w = E.full(st, v)
        k = status_code(E, w)
        return [(st, k if k is not None else as_u16(w))]
    return [(st, call("convert", mk("tyname", tt), E.full(st, v)))]


@model("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into")
def try_from_int(E, st, c):
    """between integer types: Ok of the same number, if it fits"""
    a, b = [strip_refs(t) for t in c.targs[:2]]
    tt, ft = (a, b) if c.cn.endswith("from") else (b, a)
    if not (tt.a[0] == ft.a[0] == "prim" and tt.a[1] in INT_RANGES and ft.a[1] in INT_RANGES):
        return None
    v = E.full(st, c.args[0])
    if v.op == "int":
        lo, hi = INT_RANGES[tt.a[1]][:2]
        return [(st, ok(v) if lo <= v.a[0] <= hi else err(call("TryFromIntError")))]
    if E.decided(st, mk("fits", v, tt), (True, False)):
        return [(st, ok(mk("cast", v, tt)))]
    return [(st, err(call("TryFromIntError")))]


@model("core::cmp::Ord::min")
def ord_min(E, st, c):
    """the lesser of a number and the most an integer type can hold"""
    a, b = [E.full(st, x) for x in c.args]
    if a.op == b.op == "int":
        return [(st, a if a.a[0] <= b.a[0] else b)]
    if b.op != "int":
        a, b = b, a
    t = strip_refs(c.targs[0])
    if b.op != "int" or t.a[:2] != ("prim", "usize") or b.a[0] != INT_RANGES["u32"][1]:
        return None
    return [(st, a if E.decided(st, mk("fits", a, mk("T", "prim", "u32")), (True, False)) else b)]


@model("core::convert::From::from")
def from_(E, st, c):
    return convert(E, st, c, c.targs[1], c.targs[0], c.args[0])


@model("core::convert::Into::into")
def into_(E, st, c):
    return convert(E, st, c, c.targs[0], c.targs[1], c.args[0])


@model("core::option::Option::is_some", "core::option::Option::is_none")
def is_some(E, st, c):
    r = E.variant(st, c.args[0], OPT, 2) == 1
    return [(st, lbool(r == c.cn.endswith("is_some")))]


@model("core::result::Result::is_ok", "core::result::Result::is_err")
def is_ok(E, st, c):
    r = rv(E, st, c.args[0]) == 0
    return [(st, lbool(r == c.cn.endswith("is_ok")))]


@model("core::option::Option::is_some_and")
def is_some_and(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, FALSE)]
    return cl(E, st, c, c.args[1], pay(E, st, v, 1))


@model("core::option::Option::is_none_or")
def is_none_or(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, TRUE)]
    return cl(E, st, c, c.args[1], pay(E, st, v, 1))


@model("core::result::Result::is_ok_and")
def is_ok_and(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return [(st, FALSE)]
    return cl(E, st, c, c.args[1], pay(E, st, v, 0))


@model("core::result::Result::is_err_and")
def is_err_and(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 0:
        return [(st, FALSE)]
    return cl(E, st, c, c.args[1], pay(E, st, v, 1))


@model("core::option::Option::map")
def opt_map(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, NONE)]
    return mapres(cl(E, st, c, c.args[1], pay(E, st, v, 1)), some)


@model("core::option::Option::and_then")
def opt_and_then(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, NONE)]
    return cl(E, st, c, c.args[1], pay(E, st, v, 1))


@model("core::option::Option::inspect")
def opt_inspect(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, NONE)]
    return mapres(cl(E, st, c, c.args[1], pay(E, st, v, 1)), lambda _: E.deref(st, v))


@model("core::option::Option::map_or")
def opt_map_or(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, c.args[1])]
    return cl(E, st, c, c.args[2], pay(E, st, v, 1))


@model("core::option::Option::map_or_else")
def opt_map_or_else(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return cl(E, st, c, c.args[1])
    return cl(E, st, c, c.args[2], pay(E, st, v, 1))


@model("core::option::Option::or")
def opt_or(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, c.args[1])]
    return [(st, E.deref(st, v))]


@model("core::option::Option::or_else")
def opt_or_else(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return cl(E, st, c, c.args[1])
    return [(st, E.deref(st, v))]


@model("core::option::Option::and")
def opt_and(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, NONE)]
    return [(st, c.args[1])]


@model("core::option::Option::xor")
def opt_xor(E, st, c):
    a, b = E.variant(st, c.args[0], OPT, 2), E.variant(st, c.args[1], OPT, 2)
    if a == b:
        return [(st, NONE)]
    return [(st, E.deref(st, c.args[0] if a else c.args[1]))]


@model("core::option::Option::filter")
def opt_filter(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, NONE)]
    p = pay(E, st, v, 1)
    out = []
    for s, r in cl(E, st, c, c.args[1], E.newref(st, p)):
        for s2, b in branches(E, s, r):
            out.append((s2, some(p) if b else NONE))
    return out


def branches(E, st, r):
    """[(state, bool)] deciding boolean term r"""
    try:
        return [(st, E.truth(st, r))]
    except NeedSplit as e:
        out = []
        for s in E.split(st, e):
            out.extend(branches(E, s, r))
        return out


@model("core::option::Option::unwrap_or", "core::result::Result::unwrap_or")
def unwrap_or(E, st, c):
    v = c.args[0]
    if "Option" in c.cn:
        if E.variant(st, v, OPT, 2) == 0:
            return [(st, c.args[1])]
        return [(st, pay(E, st, v, 1))]
    if rv(E, st, v) == 1:
        return [(st, c.args[1])]
    return [(st, pay(E, st, v, 0))]


@model("core::option::Option::unwrap_or_else", "core::result::Result::unwrap_or_else")
def unwrap_or_else(E, st, c):
    v = c.args[0]
    if "Option" in c.cn:
        if E.variant(st, v, OPT, 2) == 0:
            return cl(E, st, c, c.args[1])
        return [(st, pay(E, st, v, 1))]
    if rv(E, st, v) == 1:
        return cl(E, st, c, c.args[1], pay(E, st, v, 1))
    return [(st, pay(E, st, v, 0))]


@model("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def unwrap_or_default(E, st, c):
    v = c.args[0]
    if "Option" in c.cn:
        if E.variant(st, v, OPT, 2) == 1:
            return [(st, pay(E, st, v, 1))]
    elif rv(E, st, v) == 0:
        return [(st, pay(E, st, v, 0))]
    return default_value(E, st, c.targs[0])


@model("core::option::Option::unwrap", "core::option::Option::expect")
def opt_unwrap(E, st, c):
    if E.variant(st, c.args[0], OPT, 2) == 0:
        E.panic(c.fr, st, c.line, "unwrap on None")
        return []
    return [(st, pay(E, st, c.args[0], 1))]


@model("core::result::Result::unwrap", "core::result::Result::expect")
def res_unwrap(E, st, c):
    if rv(E, st, c.args[0]) == 1:
        E.panic(c.fr, st, c.line, "unwrap on Err")
        return []
    return [(st, pay(E, st, c.args[0], 0))]


@model("core::result::Result::unwrap_err", "core::result::Result::expect_err")
def res_unwrap_err(E, st, c):
    if rv(E, st, c.args[0]) == 0:
        E.panic(c.fr, st, c.line, "unwrap_err on Ok")
        return []
    return [(st, pay(E, st, c.args[0], 1))]


@model("core::option::Option::ok_or")
def ok_or(E, st, c):
    if E.variant(st, c.args[0], OPT, 2) == 0:
        return [(st, err(c.args[1]))]
    return [(st, ok(pay(E, st, c.args[0], 1)))]


@model("core::option::Option::ok_or_else")
def ok_or_else(E, st, c):
    if E.variant(st, c.args[0], OPT, 2) == 0:
        return mapres(cl(E, st, c, c.args[1]), err)
    return [(st, ok(pay(E, st, c.args[0], 1)))]


@model("core::option::Option::transpose")
def opt_transpose(E, st, c):
    v = c.args[0]
    if E.variant(st, v, OPT, 2) == 0:
        return [(st, ok(NONE))]
    r = pay(E, st, v, 1)
    if rv(E, st, r) == 0:
        return [(st, ok(some(pay(E, st, r, 0))))]
    return [(st, err(pay(E, st, r, 1)))]


@model("core::result::Result::transpose")
def res_transpose(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return [(st, some(err(pay(E, st, v, 1))))]
    r = pay(E, st, v, 0)
    if E.variant(st, r, OPT, 2) == 0:
        return [(st, NONE)]
    return [(st, some(ok(pay(E, st, r, 1))))]


@model("core::option::Option::flatten")
def opt_flatten(E, st, c):
    if E.variant(st, c.args[0], OPT, 2) == 0:
        return [(st, NONE)]
    return [(st, pay(E, st, c.args[0], 1))]


@model("core::option::Option::zip")
def opt_zip(E, st, c):
    if E.variant(st, c.args[0], OPT, 2) == 0 or E.variant(st, c.args[1], OPT, 2) == 0:
        return [(st, NONE)]
    return [(st, some(tup(pay(E, st, c.args[0], 1), pay(E, st, c.args[1], 1))))]


@model("core::option::Option::take")
def opt_take(E, st, c):
    v = E.deref(st, c.args[0])
    store_through(E, st, c.args[0], NONE)
    return [(st, v)]


@model("core::option::Option::replace", "core::option::Option::insert_")
def opt_replace(E, st, c):
    v = E.deref(st, c.args[0])
    store_through(E, st, c.args[0], some(c.args[1]))
    return [(st, v)]


@model("core::result::Result::ok")
def res_ok(E, st, c):
    if rv(E, st, c.args[0]) == 0:
        return [(st, some(pay(E, st, c.args[0], 0)))]
    return [(st, NONE)]


@model("core::result::Result::err")
def res_err(E, st, c):
    if rv(E, st, c.args[0]) == 1:
        return [(st, some(pay(E, st, c.args[0], 1)))]
    return [(st, NONE)]


@model("core::result::Result::map")
def res_map(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return [(st, err(pay(E, st, v, 1)))]
    return mapres(cl(E, st, c, c.args[1], pay(E, st, v, 0)), ok)


@model("core::result::Result::map_err")
def res_map_err(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 0:
        return [(st, ok(pay(E, st, v, 0)))]
    return mapres(cl(E, st, c, c.args[1], pay(E, st, v, 1)), err)


@model("core::result::Result::and_then")
def res_and_then(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return [(st, err(pay(E, st, v, 1)))]
    return cl(E, st, c, c.args[1], pay(E, st, v, 0))


@model("core::result::Result::and")
def res_and(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return [(st, err(pay(E, st, v, 1)))]
    return [(st, c.args[1])]


@model("core::result::Result::or_else")
def res_or_else(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 0:
        return [(st, ok(pay(E, st, v, 0)))]
    return cl(E, st, c, c.args[1], pay(E, st, v, 1))


@model("core::result::Result::or")
def res_or(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 0:
        return [(st, ok(pay(E, st, v, 0)))]
    return [(st, c.args[1])]


@model("core::result::Result::map_or")
def res_map_or(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return [(st, c.args[1])]
    return cl(E, st, c, c.args[2], pay(E, st, v, 0))


@model("core::result::Result::map_or_else")
def res_map_or_else(E, st, c):
    v = c.args[0]
    if rv(E, st, v) == 1:
        return cl(E, st, c, c.args[1], pay(E, st, v, 1))
    return cl(E, st, c, c.args[2], pay(E, st, v, 0))


@model("core::result::Result::inspect_err")
def res_inspect_err(E, st, c):
    v = c.args[0]
    w = E.deref(st, v)
    if rv(E, st, v) == 0:
        return [(st, w)]
    return mapres(cl(E, st, c, c.args[1], E.newref(st, pay(E, st, v, 1))), lambda _: w)


@model("core::result::Result::inspect")
def res_inspect(E, st, c):
    v = c.args[0]
    w = E.deref(st, v)
    if rv(E, st, v) == 1:
        return [(st, w)]
    return mapres(cl(E, st, c, c.args[1], E.newref(st, pay(E, st, v, 0))), lambda _: w)


@model("bool::then")
def bool_then(E, st, c):
    if E.truth(st, c.args[0]):
        return mapres(cl(E, st, c, c.args[1]), some)
    return [(st, NONE)]


@model("bool::then_some")
def bool_then_some(E, st, c):
    return [(st, some(c.args[1]) if E.truth(st, c.args[0]) else NONE)]


# ------------------------------------------------------------------ function values
@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def fn_call(E, st, c):
    a = E.deref(st, c.args[1])
    if a.op == "agg" and a.a[0] == "tuple":
        args = list(a.a[2])
    else:
        args = [a]
    return E.call_closure_ref(st, c.args[0], args, c.fr, c.line)


# ------------------------------------------------------------------ futures
@model("core::future::future::Future::poll")
def poll(E, st, c):
    f = c.args[0]
    v = E.deref(st, f)
    if v.op == "phi":
        raise NeedSplit("phi", v)
    if v.op == "agg" and isinstance(v.a[0], tuple) and v.a[0][0] == "coroutine":
        _, bid, ta = v.a[0]
        if bid in E.bodies:
            return [(s, agg(POLL, 0, (r,))) for s, r in E.inline(st, bid, ta, [v, sym("resume")], c.fr, c.line)]
    return [(st, agg(POLL, 0, (call("await", E.full(st, v)),)))]


# ------------------------------------------------------------------ comparison
@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def partial_eq(E, st, c):
    a, b = E.full(st, c.args[0]), E.full(st, c.args[1])
    t = strip_refs(c.targs[0])
    if a.op == "phi":
        raise NeedSplit("phi", a)
    if b.op == "phi":
        raise NeedSplit("phi", b)
    if t.a[0] == "adt" and t.a[1] in (OPT, RES):
        va, vb = E.variant(st, a, t.a[1], 2), E.variant(st, b, t.a[1], 2)
        if va != vb:
            r = FALSE
        elif t.a[1] == OPT and va == 0:
            r = TRUE
        else:
            r = E.eqterm(E.simp(st, fld(a, va, 0)), E.simp(st, fld(b, va, 0)))
    elif a.op == "agg" and b.op == "agg" and isinstance(a.a[0], str) and a.a[0].startswith(SCHEMARS) and a.a[:2] == b.a[:2]:
        r = schemars_eq(E, st, a, b)
    else:
        r = eq_special(E, st, t, a, b)
        if r is None:
            r = E.eqterm(a, b)
    if r.op == "isvar":
        n = E.nvariants(r.a[2])
        r = lbool(E.variant(st, r.a[0], r.a[2], n) == r.a[1])
    return [(st, r if c.cn.endswith("eq") else E.nott(r))]


def status_code(E, v):
    """integer value of a constant StatusCode"""
    while v.op == "agg" and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v if v.op == "int" else None


def eq_special(E, st, t, a, b):
    if t.a[0] == "adt" and t.a[1] == "http::status::StatusCode":
        ca, cb = status_code(E, a), status_code(E, b)
        if ca is not None and cb is not None:
            return lbool(ca is cb)
        if cb is not None:
            return mk("ieq", as_u16(a), cb)
        if ca is not None:
            return mk("ieq", as_u16(b), ca)
    return None


def as_u16(a):
    return call("StatusCode::as_u16", a)


@model("http::status::StatusCode::as_u16")
def status_as_u16(E, st, c):
    v = E.full(st, c.args[0])
    k = status_code(E, v)
    return [(st, k if k is not None else as_u16(v))]


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def partial_ord(E, st, c):
    op = {"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[c.cn.rsplit("::", 1)[1]]
    return [(st, E.binop(st, op, c.args[0], c.args[1]))]


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ord_cmp(E, st, c):
    a, b = E.full(st, c.args[0]), E.full(st, c.args[1])
    wrap = some if c.cn.endswith("partial_cmp") else (lambda x: x)
    t = strip_refs(c.targs[0]) if c.targs else None
    if a.op == "phi":
        raise NeedSplit("phi", a)
    if b.op == "phi":
        raise NeedSplit("phi", b)
    if a.op == b.op and a.op in ("int", "bool", "char", "str") and not (a.op == "str" and not (a.a[0].isascii() and b.a[0].isascii())):
        return [(st, wrap(ordering((a.a[0] > b.a[0]) - (a.a[0] < b.a[0]))))]
    if a.op == "agg" and a.a[0] == "tuple" and b.op == "agg" and b.a[0] == "tuple" and len(a.a[2]) == len(b.a[2]) and not c.cn.endswith("partial_cmp"):
        r = ordering(0)
        for x, y in reversed(list(zip(a.a[2], b.a[2]))):
            if x.op == y.op == "int":
                o = ordering((x.a[0] > y.a[0]) - (x.a[0] < y.a[0]))
            else:
                o = call("core::cmp::Ord::cmp", x, y)
            r = o if o.op == "agg" and o.a[1] != 1 else r if o.op == "agg" else o if r is ordering(0) else call("core::cmp::Ordering::then", o, r)
        return [(st, r)]
    return [(st, call(c.cn, a, b))]


def ordering(n):
    return agg(ORD, n + 1, ())


@model("core::cmp::Ordering::then", "core::cmp::Ordering::then_with")
def ord_then(E, st, c):
    a = E.full(st, c.args[0])
    if a.op == "phi":
        raise NeedSplit("phi", a)
    if a.op == "agg":
        if a.a[1] != 1:
            return [(st, a)]
        return E.call_value(st, c.args[1], [], c.fr, c.line) if c.cn.endswith("with") else [(st, E.full(st, c.args[1]))]
    if c.cn.endswith("with"):
        return [(s, call("core::cmp::Ordering::then", a, E.full(s, v))) for s, v in E.call_value(st, c.args[1], [], c.fr, c.line)]
    return [(st, call("core::cmp::Ordering::then", a, E.full(st, c.args[1])))]


@model("core::cmp::Ordering::reverse")
def ord_reverse(E, st, c):
    a = E.full(st, c.args[0])
    if a.op == "phi":
        raise NeedSplit("phi", a)
    if a.op == "agg":
        return [(st, ordering(1 - a.a[1]))]
    if a.op == "call" and a.a[0] == "core::cmp::Ord::cmp":
        return [(st, call(a.a[0], a.a[1][1], a.a[1][0]))]
    return [(st, call(c.cn, a))]


@model("core::cmp::Ordering::is_eq", "core::cmp::Ordering::is_ne", "core::cmp::Ordering::is_lt", "core::cmp::Ordering::is_gt", "core::cmp::Ordering::is_le", "core::cmp::Ordering::is_ge")
def ord_is(E, st, c):
    a = E.full(st, c.args[0])
    want = dict(eq=(1,), ne=(0, 2), lt=(0,), gt=(2,), le=(0, 1), ge=(1, 2))[c.cn.rsplit("_", 1)[1]]
    return [(s, lbool(k in want)) for s, k in variants(E, st, a, ORD, 3)]


# ------------------------------------------------------------------ formatting
def text(E, st, c, ty, v, trait="core::fmt::Display", opts=0):
    """[(state, text term)] of formatting v:ty by trait with fresh options"""
    ty = strip_refs(ty)
    v0 = v
    v = E.deref(st, v)
    if ty.a[0] == "alias":
        ty = E.normalise(ty)
    if v.op == "phi":
        raise NeedSplit("phi", v)
    if trait == "core::fmt::Display" and not opts:
        if is_str(ty):
            return [(st, E.full(st, v))]
        if ty.a[0] == "adt" and ty.a[1] == "quote::__private::IdentFragmentAdapter":
            return text(E, st, c, ty.a[2][0], fld(v, 0, 0), trait, opts)
        if v.op == "identv":
            return [(st, v.a[0])]
        if v.op == "str":
            return [(st, v)]
        if v.op == "char":
            return [(st, lstr(v.a[0]))]
        if v.op == "int":
            return [(st, lstr(str(v.a[0])))]
        if v.op == "bool":
            return [(st, lstr("true" if v.a[0] else "false"))]
        if v.op == "fmtargs":
            return [(st, v.a[0])]
        if v.op == "pctenc":
            return [(st, v)]
        if ty.a[0] == "adt" and ty.a[1] == "alloc::boxed::Box":
            return text(E, st, c, ty.a[2][0], v, trait, opts)
    if v.op == "fmtargs" and not opts:
        return [(st, v.a[0])]
    nm = trait.rsplit("::", 1)[1]
    if not opts and E.find_impls(trait, (ty,)) and ty.a[0] not in ("param",):
        f = E.alloc(st, lstr(""))
        out = []
        rs = E.call_trait(st, trait, "fmt", (ty,), [E.newref(st, v), mk("ref", f, ())], c.fr if c else None)
        fails = []
        for s, r in rs:
            for s2, k in variants(E, s, r, RES, 2):
                if k == 0:
                    out.append((s2, E.full(s2, s2.store[f])))
        if out:
            return out
    return [(st, mk("disp", nm, E.full(st, v), opts))]


def variants(E, st, v, adt, n):
    try:
        return [(st, E.variant(st, v, adt, n))]
    except NeedSplit as e:
        out = []
        for s in E.split(st, e):
            out.extend(variants(E, s, v, adt, n))
        return out


for _tr in ("display", "debug", "lower_hex", "upper_hex", "lower_exp", "upper_exp", "octal", "binary", "pointer"):
    def _mk(_tr):
        def f(E, st, c):
            tn = "core::fmt::" + "".join(x.capitalize() for x in _tr.split("_"))
            return [(st, mk("fmtarg", tn, c.targs[-1], c.args[0]))]
        return f
    M["core::fmt::rt::Argument::new_" + _tr] = _mk(_tr)


@model("core::fmt::rt::Argument::from_usize")
def arg_usize(E, st, c):
    return [(st, mk("fmtarg", "usize", None, c.args[0]))]


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst", "core::fmt::Arguments::new_const")
def args_from_str(E, st, c):
    v = E.full(st, c.args[0])
    items = E.concrete_items(v)
    if items is not None:
        v = cat(*items)
    return [(st, mk("fmtargs", v))]


@model("core::fmt::Arguments::new")
def args_new(E, st, c):
    tmpl = E.full(st, c.args[0])
    args = E.deref(st, c.args[1])
    items = E.concrete_items(args)
    if tmpl.op == "agg":
        b = bytes(x.a[0] for x in tmpl.a[2])
    elif tmpl.op == "bytes":
        b = bytes(tmpl.a[0])
    else:
        raise Unsupported("format template %s" % show(tmpl))
    i = 0
    ai = 0
    outs = [(st, [])]
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            s = b[i:i + n].decode()
            i += n
            outs = [(x, l + [lstr(s)]) for x, l in outs]
            continue
        if n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            s = b[i:i + ln].decode()
            i += ln
            outs = [(x, l + [lstr(s)]) for x, l in outs]
            continue
        flags = width = prec = 0
        if n & 1:
            flags = int.from_bytes(b[i:i + 4], "little")
            i += 4
        if n & 2:
            width = int.from_bytes(b[i:i + 2], "little") + 1
            i += 2
        if n & 4:
            prec = int.from_bytes(b[i:i + 2], "little") + 1
            i += 2
        if n & 8:
            ai = int.from_bytes(b[i:i + 2], "little")
            i += 2
        opts = (flags, width, prec, n & 48) if n != 0xC0 and (n & 7) else 0
        if opts and flags in (0, 0x60000020) and not width and not prec:
            opts = 0
        a = items[ai]
        ai += 1
        nxt = []
        for x, l in outs:
            a2 = E.deref(x, a)
            for s2, tx in text_split(E, x, c, a2.a[1], a2.a[2], a2.a[0], opts):
                nxt.append((s2, l + [tx]))
        outs = nxt
    return [(s, mk("fmtargs", cat(*l))) for s, l in outs]


def text_split(E, st, c, ty, v, trait, opts):
    try:
        return text(E, st.copy(), c, ty, v, trait, opts)
    except NeedSplit as e:
        out = []
        for s in E.split(st, e):
            out.extend(text_split(E, s, c, ty, v, trait, opts))
        return out


def fmt_target(E, st, fref):
    """location of a formatter/writer content"""
    r = fref
    loc, path = r.a
    while True:
        v = E.read(st, loc, path)
        if v.op == "ref":
            loc, path = v.a
        else:
            return loc, path, v


_wid = [0]


def do_write(E, st, fref, t, fallible=True):
    """append text t to a formatter: [(state, Result)]"""
    if fref.op != "ref":
        return [(st, call("write", E.full(st, fref), t))]
    loc, path, v = fmt_target(E, st, fref)
    infallible = not contains(v, lambda x: x.op == "sym" and x.a[0] == "fmt")
    s1 = st.copy()
    E.write(s1, loc, path, cat(v, t))
    if infallible or not fallible:
        return [(s1, ok(UNIT))]
    # the write may fail: an opaque result whose failure leaves the content unspecified
    r = call("fmt_write", v, t)
    s1.facts[mk("var", r)] = 0
    s2 = st.copy()
    s2.facts[mk("var", r)] = 1
    E.write(s2, loc, path, mk("failedwrite", v))
    return [(s1, ok(UNIT)), (s2, err(fld(r, 1, 0)))]


@model("core::fmt::Formatter::write_str", "core::fmt::Write::write_str")
def write_str(E, st, c):
    return do_write(E, st, c.args[0], E.full(st, c.args[1]))


@model("core::fmt::Formatter::pad")
def fmt_pad(E, st, c):
    return do_write(E, st, c.args[0], mk("dispf", "Display", E.full(st, c.args[1])))


@model("core::fmt::Formatter::write_char", "core::fmt::Write::write_char")
def write_char(E, st, c):
    return do_write(E, st, c.args[0], cat(E.full(st, c.args[1])))


@model("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt", "core::fmt::write")
def write_fmt(E, st, c):
    a = E.deref(st, c.args[1])
    if a.op == "phi":
        raise NeedSplit("phi", a)
    t = a.a[0] if a.op == "fmtargs" else mk("disp", "Display", E.full(st, a), 0)
    return do_write(E, st, c.args[0], t)


def delegated_fmt(E, st, c):
    """<T as Display/Debug..>::fmt(v, f): written with the formatter's own options"""
    tr = c.cn.rsplit("::", 1)[0]
    nm = tr.rsplit("::", 1)[1]
    ty = strip_refs(c.targs[0])
    if ty is not c.targs[0] and E.find_impls(tr, (ty,)) and ty.a[0] != "param":
        return E.call_trait(st, tr, "fmt", (ty,) + tuple(c.targs[1:]), c.args, c.fr, c.line)
    v = E.deref(st, c.args[0])
    if v.op == "phi":
        raise NeedSplit("phi", v)
    if v.op == "fmtargs":
        t = v.a[0]
    else:
        t = mk("dispf", nm, E.full(st, v))
    return do_write(E, st, c.args[1], t)


for _t in ("Display", "Debug", "LowerHex", "UpperHex"):
    M["core::fmt::%s::fmt" % _t] = delegated_fmt


@model("core::fmt::Formatter::alternate", "core::fmt::Formatter::sign_plus", "core::fmt::Formatter::width", "core::fmt::Formatter::precision")
def fmt_flags(E, st, c):
    loc, path, v = fmt_target(E, st, c.args[0]) if c.args[0].op == "ref" else (None, None, c.args[0])
    ps = pieces(v)
    base = [p for p in ps if p.op == "sym"]
    nm = c.cn.rsplit("::", 1)[1]
    if not base:
        # a formatter with default options
        if nm in ("width", "precision"):
            return [(st, NONE)]
        return [(st, FALSE)]
    return [(st, call(nm, base[0]))]


@model("alloc::string::ToString::to_string")
def to_string(E, st, c):
    return text(E, st, c, c.targs[0], c.args[0])


@model("alloc::fmt::format", "std::fmt::format", "alloc::fmt::format::format_inner")
def fmt_format(E, st, c):
    a = E.deref(st, c.args[0])
    if a.op == "phi":
        raise NeedSplit("phi", a)
    return [(st, a.a[0] if a.op == "fmtargs" else mk("disp", "Display", a, 0))]


# ------------------------------------------------------------------ String
@model("alloc::string::String::new", "alloc::string::String::with_capacity")
def string_new(E, st, c):
    return [(st, lstr(""))]


@model("alloc::string::String::push_str", "alloc::string::String::push")
def push_str(E, st, c):
    v = E.deref(st, c.args[0])
    if v.op == "phi" and False:
        raise NeedSplit("phi", v)
    store_through(E, st, c.args[0], cat(v, E.full(st, c.args[1])))
    return [(st, UNIT)]


@model("alloc::string::String::clear", "alloc::vec::Vec::clear")
def str_clear(E, st, c):
    store_through(E, st, c.args[0], lstr("") if "String" in c.cn else mk("seq", ()))
    return [(st, UNIT)]


@model("alloc::string::String::reserve", "alloc::vec::Vec::reserve", "alloc::string::String::shrink_to_fit", "alloc::vec::Vec::shrink_to_fit")
def reserve(E, st, c):
    return [(st, UNIT)]


@model("core::ops::bit::Not::not")
def bool_not(E, st, c):
    t = strip_refs(c.argtys[0]) if c.argtys else None
    if t is None or t.a != ("prim", "bool"):
        return [(st, call(c.cn, *[E.full(st, a) for a in c.args]))]
    return [(st, E.nott(E.simp(st, E.deref(st, c.args[0]))))]


@model("core::ops::arith::Add::add")
def add(E, st, c):
    if is_str(c.targs[0]):
        return [(st, cat(E.full(st, c.args[0]), E.full(st, c.args[1])))]
    return [(st, E.binop(st, "Add", c.args[0], c.args[1], c.targs[0]))]


def _arith(op):
    def f(E, st, c):
        t = strip_refs(c.targs[0])
        if t.a[0] != "prim":
            return None
        return [(st, E.binop(st, op, c.args[0], c.args[1], t))]
    return f


for _op in ("Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
    M["core::ops::%s::%s::%s" % ("bit" if _op[0:3] in ("Bit", "Shl", "Shr") else "arith", _op, _op.lower())] = _arith(_op)


@model("core::intrinsics::discriminant_value")
def discriminant_value(E, st, c):
    t = strip_refs(c.targs[0])
    if t.a[0] != "adt" or t.a[1] not in E.adts:
        return [(st, call(c.cn, E.full(st, c.args[0])))]
    n = len(E.adts[t.a[1]]["variants"])
    return [(s, lint(k)) for s, k in variants(E, st, c.args[0], t.a[1], n)]


@model("core::ops::arith::AddAssign::add_assign")
def add_assign(E, st, c):
    if is_str(c.targs[0]):
        store_through(E, st, c.args[0], cat(E.deref(st, c.args[0]), E.full(st, c.args[1])))
        return [(st, UNIT)]
    return None


@model("str::len", "alloc::string::String::len")
def str_len(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "str":
        return [(st, lint(len(v.a[0].encode())))]
    return [(st, call("len", v))]


@model("str::is_empty", "alloc::string::String::is_empty")
def str_is_empty(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "phi":
        raise NeedSplit("phi", v)
    if v.op == "str":
        return [(st, lbool(v.a[0] == ""))]
    if v.op == "cat" and any(x.op == "str" for x in v.a[0]):
        return [(st, FALSE)]
    return [(st, mk("ieq", v, lstr("")))]


def strlit(name, f):
    def m(E, st, c):
        vs = [E.full(st, a) for a in c.args]
        for v in vs:
            if v.op == "phi":
                raise NeedSplit("phi", v)
        if all(v.op in ("str", "char") for v in vs):
            r = f(*[v.a[0] for v in vs])
            if r is not None:
                return [(st, r)]
        return [(st, call(c.cn, *vs))]
    M[name] = m


def range_contains(E, st, c):
    r, x = E.deref(st, c.args[0]), E.deref(st, c.args[1])
    k = c.cn.split("::")[-2] if not c.cn.endswith("RangeBounds::contains") else (r.a[0].rsplit("::", 1)[-1] if r.op == "agg" else "")
    if r.op == "call" and r.a[0].endswith("RangeInclusive::new") and len(r.a[1]) == 2:
        lo, hi, k = r.a[1][0], r.a[1][1], "RangeInclusive"
        out = []
        for s, b in branches(E, st, E.binop(st, "Le", lo, x)):
            out += branches(E, s, E.binop(s, "Le", x, hi)) if b else [(s, b)]
        return [(s, lbool(b)) for s, b in out]
    if r.op != "agg" or not r.a[0].rsplit("::", 1)[-1].startswith("Range"):
        return [(st, call(c.cn, E.full(st, c.args[0]), E.full(st, c.args[1])))]
    k = r.a[0].rsplit("::", 1)[-1]
    f = r.a[2]
    lo = f[0] if k in ("Range", "RangeInclusive", "RangeFrom") else None
    hi = {"Range": (f[1] if len(f) > 1 else None, "Lt"), "RangeInclusive": (f[1] if len(f) > 1 else None, "Le"), "RangeTo": (f[0], "Lt"), "RangeToInclusive": (f[0], "Le")}.get(k)
    if lo is None and hi is None:
        return [(st, call(c.cn, E.full(st, c.args[0]), E.full(st, c.args[1])))]
    if k == "RangeInclusive" and len(f) > 2 and f[2] is not FALSE:
        return [(st, call(c.cn, E.full(st, c.args[0]), E.full(st, c.args[1])))]
    out = []
    for s, b in branches(E, st, E.binop(st, "Le", lo, x)) if lo is not None else [(st, True)]:
        out += branches(E, s, E.binop(s, hi[1], x, hi[0])) if b and hi is not None else [(s, b)]
    return [(s, lbool(b)) for s, b in out]


for _n in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive", "RangeBounds"):
    for _m in ("core::ops::range::%s::contains", "%s::contains"):
        M[_m % _n] = range_contains


def slice_contains(E, st, c):
    items = E.concrete_items(E.deref(st, c.args[0]))
    x = E.deref(st, c.args[1])
    if items is None or len(items) > 12:
        return [(st, call(c.cn, E.full(st, c.args[0]), E.full(st, c.args[1])))]
    out, rest = [], [st]
    for y in items:
        more = []
        for s in rest:
            for s2, b in branches(E, s, E.eqterm(E.deref(s, y), x)):
                (out if b else more).append(s2)
        rest = more
    return [(s, TRUE) for s in out] + [(s, FALSE) for s in rest]


M["slice::contains"] = slice_contains


strlit("str::starts_with", lambda s, p: lbool(s.startswith(p)))
strlit("str::ends_with", lambda s, p: lbool(s.endswith(p)))
strlit("str::contains", lambda s, p: lbool(p in s))
strlit("str::trim", lambda s: lstr(s.strip()))
strlit("str::to_lowercase", lambda s: lstr(s.lower()))
strlit("str::to_uppercase", lambda s: lstr(s.upper()))
strlit("str::to_ascii_lowercase", lambda s: lstr(s.lower()))
strlit("str::to_ascii_uppercase", lambda s: lstr(s.upper()))
strlit("str::replace", lambda s, a, b: lstr(s.replace(a, b)))
strlit("str::strip_prefix", lambda s, p: some(lstr(s[len(p):])) if s.startswith(p) else NONE)
strlit("str::strip_suffix", lambda s, p: some(lstr(s[:-len(p)] if p else s)) if s.endswith(p) else NONE)


@model("str::parse")
def str_parse(E, st, c):
    return [(st, call("parse", mk("tyname", c.targs[-1]), E.full(st, c.args[0])))]


@model("u8::from_str_radix", "u16::from_str_radix", "u32::from_str_radix", "u64::from_str_radix", "usize::from_str_radix", "i32::from_str_radix", "i64::from_str_radix")
def from_str_radix(E, st, c):
    r = E.full(st, c.args[1])
    if r.op == "int" and r.a[0] == 10:
        return [(st, call("parse", mk("tyname", T("prim", c.cn.split("::")[0])), E.full(st, c.args[0])))]
    return [(st, call(c.cn, E.full(st, c.args[0]), r))]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index_full(E, st, c):
    if any(t is not None and t.a[0] == "adt" and t.a[1] == "core::ops::range::RangeFull" for t in c.targs[1:2]):
        return [(st, c.args[0])]
    return None


@model("serde_json::de::Deserializer::from_slice", "serde_json::de::Deserializer::from_str", "serde_json::de::Deserializer::from_reader")
def json_de(E, st, c):
    return [(st, mk("jsonde", E.full(st, c.args[0]), 0))]


@model("serde::de::Deserialize::deserialize")
def json_deserialize(E, st, c):
    """one value from the start of a JSON text. What from_slice accepts is such a value followed by nothing
    but whitespace, so there are three cases: all good, a bad value, and a value with something after it."""
    loc, path, v = fmt_target(E, st, c.args[0]) if c.args[0].op == "ref" else (None, None, c.args[0])
    if v.op != "jsonde" or v.a[1] != 0 or loc is None:
        return None
    x = v.a[0]
    whole = call("serde_json::de::from_slice", x)
    if E.variant(st, whole, RES, 2) == 0:
        E.write(st, loc, path, mk("jsonde", x, 1))
        return [(st, ok(pay(E, st, whole, 0)))]
    if E.truth(st, mk("trailing", x)):
        E.write(st, loc, path, mk("jsonde", x, 2))
        return [(st, ok(call("json_prefix", x)))]
    E.write(st, loc, path, mk("jsonde", x, 3))
    return [(st, err(pay(E, st, whole, 1)))]


@model("serde_json::de::Deserializer::end")
def json_end(E, st, c):
    loc, path, v = fmt_target(E, st, c.args[0]) if c.args[0].op == "ref" else (None, None, c.args[0])
    if v.op == "jsonde" and v.a[1] == 1:
        return [(st, ok(UNIT))]
    if v.op == "jsonde" and v.a[1] == 2:
        return [(st, err(pay(E, st, call("serde_json::de::from_slice", v.a[0]), 1)))]
    return None


@model("serde_json::de::from_reader")
def json_from_reader(E, st, c):
    """reading from an in-memory slice is the same grammar over the same bytes"""
    t = strip_refs(c.targs[0])
    if t.a[0] == "slice":
        return [(st, call("serde_json::de::from_slice", E.full(st, c.args[0])))]
    return None


@model("core::str::traits::FromStr::from_str")
def from_str(E, st, c):
    return [(st, call("parse", mk("tyname", c.targs[0]), E.full(st, c.args[0])))]


# ------------------------------------------------------------------ percent encoding
def setbits(E, st, v):
    """128-bit membership mask of an AsciiSet value, or None"""
    v = E.full(st, v)
    if v.op == "asciiset":
        return v.a[0]
    if v.op == "agg" and v.a[0] == "percent_encoding::AsciiSet":
        f = v.a[2][0]
        items = E.concrete_items(f)
        if items is not None and all(x.op == "int" for x in items):
            n = 0
            for i, x in enumerate(items):
                n |= x.a[0] << (32 * i)
            return n
    return None


@model("percent_encoding::AsciiSet::add", "percent_encoding::AsciiSet::remove")
def set_add(E, st, c):
    n = setbits(E, st, c.args[0])
    b = E.full(st, c.args[1])
    if n is None or b.op != "int":
        return [(st, call(c.cn, E.full(st, c.args[0]), b))]
    n = n | (1 << b.a[0]) if c.cn.endswith("add") else n & ~(1 << b.a[0])
    return [(st, mk("asciiset", n))]


@model("percent_encoding::AsciiSet::union")
def set_union(E, st, c):
    a, b = setbits(E, st, c.args[0]), setbits(E, st, c.args[1])
    if a is None or b is None:
        return [(st, call(c.cn, E.full(st, c.args[0]), E.full(st, c.args[1])))]
    return [(st, mk("asciiset", a | b))]


@model("percent_encoding::AsciiSet::complement")
def set_compl(E, st, c):
    a = setbits(E, st, c.args[0])
    return [(st, mk("asciiset", a ^ ((1 << 128) - 1)))]


@model("percent_encoding::utf8_percent_encode", "percent_encoding::percent_encode")
def pct(E, st, c):
    n = setbits(E, st, c.args[1])
    v = E.full(st, c.args[0])
    s = lint(n) if n is not None else E.full(st, c.args[1])
    return [(st, mk("pctenc", v, s))]


# ------------------------------------------------------------------ serde Serialize of std types
SER = "serde::ser::Serializer"


def ser_prim(ty):
    n = ty.a[1]
    return "serialize_" + n


@model("serde::ser::Serialize::serialize")
def serialize(E, st, c):
    ty = c.targs[0]
    sty = c.targs[1]
    v, ser = c.args[0], c.args[1]
    ty = strip_refs(ty)
    v = E.deref(st, v)
    if ty.a[0] == "adt" and ty.a[1] in ("alloc::boxed::Box", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::borrow::Cow"):
        ty = strip_refs([x for x in ty.a[2] if x is not None][0])
    if v.op == "phi":
        raise NeedSplit("phi", v)

    def sc(st, m, args, extra=()):
        return E.call_trait(st, SER, m, (sty,) + tuple(extra), [ser] + args, c.fr, c.line)

    if E.find_impls("serde::ser::Serialize", (ty,)) and ty.a[0] not in ("param", "model"):
        return E.call_trait(st, "serde::ser::Serialize", "serialize", (ty, sty), [E.newref(st, v), ser], c.fr, c.line)
    k = ty.a[0]
    if k == "prim":
        return sc(st, ser_prim(ty), [v])
    if is_str(ty):
        return sc(st, "serialize_str", [v])
    if k == "tuple":
        if not ty.a[1]:
            return sc(st, "serialize_unit", [])
        return ser_compound(E, st, c, "serialize_tuple", [lint(len(ty.a[1]))], "serde::ser::SerializeTuple", "SerializeTuple", "serialize_element",
                            [[(tref(t), E.newref(st, fld(v, 0, i)))] for i, t in enumerate(ty.a[1])])
    if k == "array":
        items = E.concrete_items(v)
        if items is None and ty.a[2] is not None:
            items = [mk("index", v, lint(i)) for i in range(ty.a[2])]
        if items is not None:
            return ser_compound(E, st, c, "serialize_tuple", [lint(len(items))], "serde::ser::SerializeTuple", "SerializeTuple", "serialize_element",
                                [[(tref(ty.a[1]), E.newref(st, x))] for x in items])
    if k == "slice" or (k == "adt" and ty.a[1] in SEQTYPES):
        et = ty.a[1] if k == "slice" else ty.a[2][0]
        items = E.concrete_items(v)
        if items is not None:
            return ser_compound(E, st, c, "serialize_seq", [some(lint(len(items)))], "serde::ser::SerializeSeq", "SerializeSeq", "serialize_element",
                                [[(tref(et), E.newref(st, x))] for x in items])
    if k == "adt" and ty.a[1] == OPT:
        if E.variant(st, v, OPT, 2) == 0:
            return sc(st, "serialize_none", [])
        return sc(st, "serialize_some", [E.newref(st, pay(E, st, v, 1))], (ty.a[2][0],))
    if k == "model":
        return ser_model(E, st, c, ty, v, ser, sty)
    return [(st, call("Serialize::serialize", E.full(st, v), E.full(st, ser)))]


def assoc(E, sty, nm):
    t = T("alias", SER + "::" + nm, SER, nm, (sty,))
    return E.normalise(t)


def ser_compound(E, st, c, opener, oargs, tr, assocname, step, elems, endname="end", extra=()):
    """open?; step each?; end -- exactly as serde's own impls do"""
    sty = c.targs[1]
    outs = []
    cty = assoc(E, sty, assocname)
    rs = E.call_trait(st, SER, opener, (sty,) + tuple(extra), [c.args[1]] + oargs, c.fr, c.line)
    work = []
    for s, r in rs:
        for s2, k in variants(E, s, r, RES, 2):
            if k == 1:
                outs.append((s2, err(pay(E, s2, r, 1))))
            else:
                loc = E.alloc(s2, pay(E, s2, r, 0))
                work.append((s2, loc))
    for el in elems:
        nxt = []
        if isinstance(el, tuple):
            stepname, tr2, args = el[0], el[1], el[2]
        else:
            stepname, tr2, args = step, tr, el
        for s, loc in work:
            tys = tuple(t for t, _ in args if t is not None)
            tys = tuple(t.a[1] if t.a[0] == "ref" else t for t in tys)
            for s2, r in E.call_trait(s, tr2, stepname, (cty,) + tys, [mk("ref", loc, ())] + [a for _, a in args], c.fr, c.line,
                                      [T("ref", cty, True)] + [t or T("other", "arg") for t, _ in args]):
                for s3, k in variants(E, s2, r, RES, 2):
                    if k == 1:
                        outs.append((s3, err(pay(E, s3, r, 1))))
                    else:
                        nxt.append((s3, loc))
        work = nxt
    for s, loc in work:
        outs.extend(E.call_trait(s, tr, endname, (cty,), [E.read(s, loc)], c.fr, c.line))
    return outs


def ser_model(E, st, c, ty, v, ser, sty):
    """a user type whose Serialize is one given call of the serde data model"""
    kind = ty.a[1]

    def sc(m, args, extra=()):
        return E.call_trait(st, SER, m, (sty,) + tuple(extra), [ser] + args, c.fr, c.line)

    r = lambda x: E.newref(st, x)
    if kind == "scalar":
        return sc("serialize_" + ty.a[2], [v])
    if kind in ("none", "unit"):
        return sc("serialize_" + kind, [])
    if kind == "some":
        return sc("serialize_some", [r(mk("sub", v))], (ty.a[2],))
    if kind == "unit_struct":
        return sc("serialize_unit_struct", [sym("tyname")])
    if kind == "unit_variant":
        return sc("serialize_unit_variant", [sym("tyname"), sym("varidx"), sym("variant")])
    if kind == "newtype_struct":
        return sc("serialize_newtype_struct", [sym("tyname"), r(mk("sub", v))], (ty.a[2],))
    if kind == "newtype_variant":
        return sc("serialize_newtype_variant", [sym("tyname"), sym("varidx"), sym("variant"), r(mk("sub", v))], (ty.a[2],))
    if kind == "collect_str":
        return E.call_trait(st, SER, "collect_str", (sty, T("model", "displayable")), [ser, r(v)], c.fr, c.line)
    if kind == "hr":
        # like uuid: text when human readable, bytes otherwise
        out = []
        for s, b in E.call_trait(st, SER, "is_human_readable", (sty,), [E.newref(st, ser)], c.fr, c.line):
            for s2, t in branches(E, s, b):
                m, a = ("serialize_str", mk("disp", "Display", v, 0)) if t else ("serialize_bytes", mk("binary", v))
                out.extend(E.call_trait(s2, SER, m, (sty,), [ser, a], c.fr, c.line))
        return out
    if kind in ("collect_seq", "collect_map"):
        one = T("model", "elem")
        if kind == "collect_map":
            one = T("tuple", (one, one))
            items = [tup(sym("key", i), sym("elem", i)) for i in range(ty.a[2])]
        else:
            items = [sym("elem", i) for i in range(ty.a[2])]
        ity = T("adt", "alloc::vec::Vec", (one,))
        arr = mk("seq", tuple(mk("e", x) for x in items))
        return E.call_trait(st, SER, kind, (sty, one, one, ity) if kind == "collect_map" else (sty, ity), [ser, arr], c.fr, c.line, [None, ity])
    if kind == "seq":
        n = ty.a[2]
        return ser_compound(E, st, c, "serialize_seq", [sym("lenhint")], "serde::ser::SerializeSeq", "SerializeSeq", "serialize_element",
                            [[(tref(T("model", "elem")), r(sym("elem", i)))] for i in range(n)])
    if kind == "elem":
        return [(st, call("Serialize::serialize", E.full(st, v), E.full(st, ser)))]
    if kind == "tuple":
        n = ty.a[2]
        return ser_compound(E, st, c, "serialize_tuple", [lint(n)], "serde::ser::SerializeTuple", "SerializeTuple", "serialize_element",
                            [[(tref(T("model", "elem")), r(sym("elem", i)))] for i in range(n)])
    if kind == "tuple_struct":
        n = ty.a[2]
        return ser_compound(E, st, c, "serialize_tuple_struct", [sym("tyname"), lint(n)], "serde::ser::SerializeTupleStruct", "SerializeTupleStruct", "serialize_field",
                            [[(tref(T("model", "elem")), r(sym("elem", i)))] for i in range(n)])
    if kind == "tuple_variant":
        n = ty.a[2]
        return ser_compound(E, st, c, "serialize_tuple_variant", [sym("tyname"), sym("varidx"), sym("variant"), lint(n)], "serde::ser::SerializeTupleVariant", "SerializeTupleVariant", "serialize_field",
                            [[(tref(T("model", "elem")), r(sym("elem", i)))] for i in range(n)])
    if kind == "map":
        n = ty.a[2]
        tr = "serde::ser::SerializeMap"
        el = []
        for i in range(n):
            if ty.a[3] == "entry":
                el.append(("serialize_entry", tr, [(tref(T("model", "elem")), r(sym("key", i))), (tref(T("model", "elem")), r(sym("elem", i)))]))
            else:
                el.append(("serialize_key", tr, [(tref(T("model", "elem")), r(sym("key", i)))]))
                el.append(("serialize_value", tr, [(tref(T("model", "elem")), r(sym("elem", i)))]))
        return ser_compound(E, st, c, "serialize_map", [sym("lenhint")], tr, "SerializeMap", None, el)
    if kind == "struct":
        n = ty.a[2]
        tr = "serde::ser::SerializeStruct"
        el = [("serialize_field", tr, [(None, sym("key", i)), (tref(T("model", "elem")), r(sym("elem", i)))]) for i in range(n)]
        return ser_compound(E, st, c, "serialize_struct", [sym("tyname"), lint(n)], tr, "SerializeStruct", None, el)
    if kind == "struct_variant":
        n = ty.a[2]
        tr = "serde::ser::SerializeStructVariant"
        el = [("serialize_field", tr, [(None, sym("key", i)), (tref(T("model", "elem")), r(sym("elem", i)))]) for i in range(n)]
        return ser_compound(E, st, c, "serialize_struct_variant", [sym("tyname"), sym("varidx"), sym("variant"), lint(n)], tr, "SerializeStructVariant", None, el)
    if kind == "seqopen":
        return sc("serialize_seq", [sym("lenhint")])
    if kind.startswith("open_"):
        n = lint(1)
        return sc("serialize_" + kind[5:], {"struct": [sym("tyname"), n], "map": [sym("lenhint")], "tuple": [n], "tuple_struct": [sym("tyname"), n],
                                            "struct_variant": [sym("tyname"), sym("varidx"), sym("variant"), n], "tuple_variant": [sym("tyname"), sym("varidx"), sym("variant"), n]}[kind[5:]])
    raise Unsupported("model kind %s" % kind)


@model("default:serde::ser::Serializer::is_human_readable")
def dflt_hr(E, st, c):
    return [(st, TRUE)]


@model("default:serde::ser::Serializer::collect_str")
def dflt_collect_str(E, st, c):
    out = []
    for s, t in text(E, st, c, c.targs[1], c.args[1]):
        out.extend(E.call_trait(s, SER, "serialize_str", (c.targs[0],), [c.args[0], t], c.fr, c.line))
    return out


@model("default:serde::ser::Serializer::serialize_i128", "default:serde::ser::Serializer::serialize_u128")
def dflt_i128(E, st, c):
    return [(st, err(call("serde_custom_error", lstr(c.cn.rsplit("_", 1)[1]))))]


@model("default:serde::ser::SerializeMap::serialize_entry")
def dflt_entry(E, st, c):
    out = []
    tr = "serde::ser::SerializeMap"
    for s, r in E.call_trait(st, tr, "serialize_key", (c.targs[0], c.targs[1]), [c.args[0], c.args[1]], c.fr, c.line, [T("ref", c.targs[0], True), None]):
        for s2, k in variants(E, s, r, RES, 2):
            if k == 1:
                out.append((s2, r))
            else:
                out.extend(E.call_trait(s2, tr, "serialize_value", (c.targs[0], c.targs[2]), [c.args[0], c.args[2]], c.fr, c.line, [T("ref", c.targs[0], True), None]))
    return out


# calls on a serializer we know nothing about: the receiver's state is threaded
def ser_opaque(E, st, c):
    tr, nm = c.cn.rsplit("::", 1)
    if nm == "is_human_readable":
        return [(st, TRUE)]  # the query encoder (serde_urlencoded) is a text format
    args = [E.full(st, a) for a in c.args]
    r = call(nm, *args)
    if tr != SER and nm != "end":
        # &mut self step
        loc, path, v = fmt_target(E, st, c.args[0])
        E.write(st, loc, path, mk("step", nm, v, tuple(args[1:])))
    return [(st, r)]


PM.append((lambda cn: cn.startswith("serde::ser::Serialize") and cn.rsplit("::", 1)[0] != "serde::ser::Serialize" and cn not in M, ser_opaque))


# ------------------------------------------------------------------ misc externals with value semantics
@model("http::header::value::HeaderValue::from_static")
def hv_from_static(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "str":
        if not all(32 <= ord(ch) < 127 or ch == "\t" for ch in v.a[0]):
            E.panic(c.fr, st, c.line, "HeaderValue::from_static on an invalid value")
            return []
        return [(st, mk("headervalue", v))]
    return [(st, call(c.cn, v))]


@model("http::header::map::HeaderMap::get", "http::header::map::HeaderMap::get_all", "http::header::map::HeaderMap::contains_key")
def hm_get(E, st, c):
    k = E.full(st, c.args[1])
    if k.op == "str" and all(ch.isascii() and (ch.isalnum() or ch in "!#$%&'*+-.^_`|~") for ch in k.a[0]):
        k = mk("hname", k.a[0].lower())
    return [(st, call(c.cn, E.full(st, c.args[0]), k))]


@model("reqwest::async_impl::response::Response::headers_mut")
def headers_mut(E, st, c):
    """the response's headers, reached for writing: from here on the headers of the response are unknown, the rest is not"""
    r = E.full(st, c.args[0])
    store_through(E, st, c.args[0], mk("upd", "headers_mut", 0, r, ()))
    return [(st, E.newref(st, call(RESPONSE + "headers", r)))]


RESPONSE = "reqwest::async_impl::response::Response::"


def resp_other(E, st, c):
    """what does not depend on the headers is unaffected by writing to them"""
    r = E.full(st, c.args[0])
    while r.op == "upd" and r.a[0] == "headers_mut":
        r = r.a[2]
    return [(st, call(c.cn, r))]


for _n in ("status", "bytes", "bytes_stream", "upgrade", "url", "version"):
    M[RESPONSE + _n] = resp_other


@model("http::header::value::HeaderValue::from_str")
def hv_from_str(E, st, c):
    v = E.full(st, c.args[0])
    if v.op == "str" and all(32 <= ord(ch) < 127 or ch == "\t" for ch in v.a[0]):
        return [(st, ok(mk("headervalue", v)))]
    return [(st, call(c.cn, v))]


# ------------------------------------------------------------------ panics
def panic_model(E, st, c):
    E.panic(c.fr, st, c.line, c.cn)
    return []


for n in ["core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::panicking::panic_display",
          "core::panicking::panic_nounwind", "core::panicking::assert_failed", "core::panicking::panic_str_2015", "std::rt::begin_panic", "std::process::abort", "std::process::exit",
          "core::panicking::panic_cannot_unwind", "core::panicking::unreachable_display", "std::rt::panic_fmt", "core::panicking::panic_const", "core::option::unwrap_failed", "core::panicking::panic_2015", "core::panicking::panic_2021"]:
    M[n] = panic_model
