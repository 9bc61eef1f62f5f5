"""What the evaluator knows about the standard library: (ev, st, args, tys, callee, site, where) -> (value, state) | None."""
from terms import *
from ev import some, NONE, ok, err, OPT, RES, St, c_not, adt, sparse

MODELS = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def is_opt(callee, k=0):
    a = callee.get("args") or [""]
    return a[k].startswith("std::option::Option")


# ---- transparent wrappers
@m("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref", "std::convert::AsMut::as_mut",
   "std::borrow::Borrow::borrow", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str", "Vec::deref",
   "std::iter::Iterator::by_ref", "Box::new", "Rc::new", "Arc::new", "std::convert::identity", "Box::pin", "Box::as_ref",
   "impl::iter", "impl::iter_mut", "Vec::iter", "VecDeque::iter", "VecDeque::iter_mut", "HashMap::iter", "HashMap::iter_mut",
   "HashSet::iter", "BTreeSet::iter", "BTreeMap::iter", "BTreeMap::iter_mut", "BinaryHeap::iter",
   "std::iter::IntoIterator::into_iter", "std::iter::Iterator::peekable", "std::iter::Iterator::fuse", "impl::into_vec",
   "Vec::into_boxed_slice", "std::iter::Iterator::inspect", "Rc::as_ref", "impl::as_ref", "std::hint::must_use",
   "Option::iter", "Option::into_iter", "std::iter::IntoIterator::by_ref", "Cell::into_inner", "String::as_bytes")
def ident(ev, st, args, tys, callee, site, where):
    return args[0], st


@m("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "impl::to_vec", "impl::to_owned", "Rc::clone",
   "Option::as_ref", "Option::cloned", "Option::copied", "Result::as_ref", "Option::as_deref", "std::string::String::from",
   "Cow::into_owned", "Box::clone")
def load(ev, st, args, tys, callee, site, where):
    v = ev.load(st, args[0])
    if v.op in ("ref",):
        v = ev.load(st, v) if tys and tys[0].startswith("&&") else v
    # Option<&T>::cloned
    if callee.get("path", "").find("Option") >= 0:
        v = ev.deep(st, v)
    return v, st


@m("Option::as_mut", "Result::as_mut", "Option::as_deref_mut")
def as_mut(ev, st, args, tys, callee, site, where):
    v = ev.load(st, args[0])
    if args[0].op != "ref":
        return v, st
    s = "Some" if "Option" in callee["path"] else "Ok"
    r = mk("ref", args[0].a[0], args[0].a[1] + (s + ":0",))
    dv = ev.deep(st, v)
    if s == "Some":
        return phi([(variant(dv, "Some"), some(r)), (variant(dv, "None"), NONE)]), st
    e = mk("ref", args[0].a[0], args[0].a[1] + ("Err:0",))
    return phi([(variant(dv, "Ok"), ok(r)), (variant(dv, "Err"), err(e))]), st


# ---- memory
@m("std::mem::drop", "std::mem::forget", "std::ptr::drop_in_place")
def drop(ev, st, args, tys, callee, site, where):
    ev.emit("drop", "drop", (ev.deep(st, args[0]),), None, st, where)
    return UNIT, st


def _single(ev, v):
    p = ev.ptr(v)
    return p[0] if len(p) == 1 else None


@m("std::mem::replace")
def replace(ev, st, args, tys, callee, site, where):
    p = ev.ptr(args[0])
    st = st.copy()
    old = phi([(c, ev.read(st, r, pa)) for c, r, pa in p])
    ev.assign(st, p, args[1], where)
    return old, st


@m("std::mem::take")
def take(ev, st, args, tys, callee, site, where):
    p = ev.ptr(args[0])
    st = st.copy()
    old = phi([(c, ev.read(st, r, pa)) for c, r, pa in p])
    ev.assign(st, p, mk("call", "std::default::Default::default", ()), where)
    return old, st


@m("Option::take")
def otake(ev, st, args, tys, callee, site, where):
    p = ev.ptr(args[0])
    st = st.copy()
    old = phi([(c, ev.read(st, r, pa)) for c, r, pa in p])
    ev.assign(st, p, NONE, where)
    return old, st


@m("Option::replace")
def oreplace(ev, st, args, tys, callee, site, where):
    p = ev.ptr(args[0])
    st = st.copy()
    old = phi([(c, ev.read(st, r, pa)) for c, r, pa in p])
    ev.assign(st, p, some(args[1]), where)
    return old, st


@m("std::mem::swap")
def swap(ev, st, args, tys, callee, site, where):
    p, q = ev.ptr(args[0]), ev.ptr(args[1])
    st = st.copy()
    a = phi([(c, ev.read(st, r, pa)) for c, r, pa in p])
    b = phi([(c, ev.read(st, r, pa)) for c, r, pa in q])
    ev.assign(st, p, b, where)
    ev.assign(st, q, a, where)
    return UNIT, st


# ---- Option / Result
def dl(ev, st, v):
    return ev.deep(st, v)


def okv(callee):
    return ("Some", "None") if "Option" in callee["path"].split("::<")[0] and "Result" not in callee["path"].split("::<")[0] else ("Ok", "Err")


def cond_apply(ev, st, x, pos, neg):
    """joins two branches: [(cond, fn(st) -> (val, st))]"""
    outs = []
    for c, fn in (pos, neg):
        s = St(dict(st.s), c_and(st.c, c))
        if not s.c:
            continue
        v, s2 = fn(s)
        if s2 is not None and s2.c:
            outs.append((s2.c, v, s2))
    if not outs:
        return mk("never"), None
    r = phi([(c, v) for c, v, _ in outs])
    out = ev.merge([(c, s) for c, _, s in outs])
    return r, out


@m("Option::map", "Result::map")
def omap(ev, st, args, tys, callee, site, where):
    y, n = okv(callee)
    x = args[0]
    dx = dl(ev, st, x)
    wrap = (lambda v: some(v)) if y == "Some" else ok

    def f(s):
        v, s2 = ev.apply(s, args[1], [field(x, "0", y)], site, where)
        return wrap(v), s2

    def g(s):
        return (NONE if y == "Some" else err(field(x, "0", "Err"))), s
    return cond_apply(ev, st, x, (variant(dx, y), f), (variant(dx, n), g))


@m("Result::map_err")
def map_err(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)

    def f(s):
        v, s2 = ev.apply(s, args[1], [field(x, "0", "Err")], site, where)
        return err(v), s2
    return cond_apply(ev, st, x, (variant(dx, "Err"), f), (variant(dx, "Ok"), lambda s: (ok(field(x, "0", "Ok")), s)))


@m("Option::and_then", "Result::and_then")
def and_then(ev, st, args, tys, callee, site, where):
    y, n = okv(callee)
    x = args[0]
    dx = dl(ev, st, x)
    return cond_apply(ev, st, x,
                      (variant(dx, y), lambda s: ev.apply(s, args[1], [field(x, "0", y)], site, where)),
                      (variant(dx, n), lambda s: ((NONE if y == "Some" else err(field(x, "0", "Err"))), s)))


@m("Option::or_else", "Result::or_else", "Option::or", "Result::or")
def or_else(ev, st, args, tys, callee, site, where):
    y, n = okv(callee)
    x = args[0]
    dx = dl(ev, st, x)
    lazy = callee["path"].endswith("else")

    def g(s):
        if not lazy:
            return args[1], s
        return ev.apply(s, args[1], [] if y == "Some" else [field(x, "0", "Err")], site, where)
    return cond_apply(ev, st, x, (variant(dx, y), lambda s: (x, s)), (variant(dx, n), g))


@m("Option::unwrap_or_else", "Result::unwrap_or_else", "Option::unwrap_or", "Result::unwrap_or",
   "Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or(ev, st, args, tys, callee, site, where):
    y, n = okv(callee)
    x = args[0]
    dx = dl(ev, st, x)

    def g(s):
        if callee["path"].endswith("default"):
            return mk("call", "std::default::Default::default", ()), s
        if callee["path"].endswith("else"):
            return ev.apply(s, args[1], [] if y == "Some" else [field(x, "0", "Err")], site, where)
        return args[1], s
    return cond_apply(ev, st, x, (variant(dx, y), lambda s: (field(x, "0", y), s)), (variant(dx, n), g))


@m("Option::map_or", "Option::map_or_else", "Result::map_or", "Result::map_or_else", "Option::is_some_and", "Option::is_none_or", "Result::is_ok_and")
def map_or(ev, st, args, tys, callee, site, where):
    y, n = okv(callee)
    x = args[0]
    dx = dl(ev, st, x)
    p = callee["path"]
    if p.endswith("_and") or p.endswith("none_or"):
        fn, dflt = args[1], const(not p.endswith("_and"))
    else:
        fn, dflt = args[2], args[1]

    def g(s):
        if p.endswith("or_else"):
            return ev.apply(s, dflt, [] if y == "Some" else [field(x, "0", "Err")], site, where)
        return dflt, s
    return cond_apply(ev, st, x, (variant(dx, y), lambda s: ev.apply(s, fn, [field(x, "0", y)], site, where)), (variant(dx, n), g))


@m("Option::filter")
def ofilter(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)

    def f(s):
        root = ("L", site + ">of", 0)
        s.set(root, (), field(x, "0", "Some"))
        r, s2 = ev.apply(s, args[1], [mk("ref", root, ())], site, where)
        d = ev.deep(s2, r)
        return phi([(truth(d), x), (truth(d, False), NONE)]), s2
    return cond_apply(ev, st, x, (variant(dx, "Some"), f), (variant(dx, "None"), lambda s: (NONE, s)))


@m("Option::ok_or", "Option::ok_or_else")
def ok_or(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)

    def g(s):
        if callee["path"].endswith("else"):
            v, s2 = ev.apply(s, args[1], [], site, where)
            return err(v), s2
        return err(args[1]), s
    return cond_apply(ev, st, x, (variant(dx, "Some"), lambda s: (ok(field(x, "0", "Some")), s)), (variant(dx, "None"), g))


@m("impl::to_result", "IResult::to_result")
def to_result(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)
    if "nom" not in callee["path"]:
        return None
    return cond_apply(ev, st, x, (variant(dx, "Done"), lambda s: (ok(field(x, "1", "Done")), s)),
                      (variant_not(dx, {"Done"}), lambda s: (err(mk("call", "nom::error", (dx,))), s)))


@m("Result::ok")
def rok(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)
    ev.emit("discard", "Result::ok", (dx,), None, st, where)
    return phi([(variant(dx, "Ok"), some(field(x, "0", "Ok"))), (variant(dx, "Err"), NONE)]), st


@m("Result::err")
def rerr(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)
    return phi([(variant(dx, "Err"), some(field(x, "0", "Err"))), (variant(dx, "Ok"), NONE)]), st


@m("Option::is_some", "Result::is_ok")
def is_some(ev, st, args, tys, callee, site, where):
    x = dl(ev, st, ev.load(st, args[0]))
    return mk("isv", x, okv(callee)[0]), st


@m("Option::is_none", "Result::is_err")
def is_none(ev, st, args, tys, callee, site, where):
    x = dl(ev, st, ev.load(st, args[0]))
    return mk("isv", x, okv(callee)[1]), st


@m("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked")
def unwrap(ev, st, args, tys, callee, site, where):
    y, n = okv(callee)
    x = args[0]
    dx = dl(ev, st, x)
    c = variant(dx, n)
    if c:
        ev.emit("panic", callee["path"].split("::")[-1], (dx,), None, st, where, cond=c, callee=callee)
    return field(x, "0", y), St(st.s, c_and(st.c, variant(dx, y)))


@m("Result::unwrap_err", "Result::expect_err")
def unwrap_err(ev, st, args, tys, callee, site, where):
    dx = dl(ev, st, args[0])
    ev.emit("panic", "unwrap_err", (dx,), None, st, where, cond=variant(dx, "Ok"), callee=callee)
    return field(args[0], "0", "Err"), st


@m("std::ops::Try::branch")
def branch(ev, st, args, tys, callee, site, where):
    return mk("trybr", args[0], "opt" if is_opt(callee) else "res"), st


@m("std::ops::FromResidual::from_residual")
def residual(ev, st, args, tys, callee, site, where):
    r = args[0]
    if is_opt(callee):
        return NONE, st
    if r.op == "resid":
        x = r.a[0]
        if r.a[1] == "opt":
            return NONE, st
        return err(field(x, "0", "Err")), st
    return err(field(r, "0", "Err")), st


@m("std::ops::Try::from_output")
def from_output(ev, st, args, tys, callee, site, where):
    return (some(args[0]) if is_opt(callee) else ok(args[0])), st


# ---- comparisons
def d2(ev, st, args):
    a = ev.deep(st, ev.load(st, args[0]))
    b = ev.deep(st, ev.load(st, args[1]))
    return a, b


@m("std::cmp::PartialEq::eq")
def peq(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    r = eq(a, b)
    ev.emit("call", "std::cmp::PartialEq::eq", (a, b), r, st, where, callee=callee)
    return r, st


@m("std::cmp::PartialEq::ne")
def pne(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    ev.emit("call", "std::cmp::PartialEq::eq", (a, b), None, st, where, callee=callee)
    return not_(eq(a, b)), st


@m("std::cmp::PartialOrd::lt")
def plt(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    return lt(a, b), st


@m("std::cmp::PartialOrd::gt")
def pgt(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    return lt(b, a), st


@m("std::cmp::PartialOrd::le")
def ple(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    return not_(lt(b, a)), st


@m("std::cmp::PartialOrd::ge")
def pge(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    return not_(lt(a, b)), st


@m("std::cmp::Ord::cmp")
def ocmp(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    ev.emit("call", "std::cmp::Ord::cmp", (a, b), None, st, where, callee=callee)
    return mk("cmp", a, b), st


@m("std::cmp::PartialOrd::partial_cmp")
def pcmp(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    ev.emit("call", "std::cmp::PartialOrd::partial_cmp", (a, b), None, st, where, callee=callee)
    return mk("pcmp", a, b), st


@m("Ordering::reverse")
def oreverse(ev, st, args, tys, callee, site, where):
    x = ev.deep(st, args[0])
    if x.op == "cmp":
        return mk("cmp", x.a[1], x.a[0]), st
    return mk("reverse", x), st


@m("Ordering::then", "Ordering::then_with")
def othen(ev, st, args, tys, callee, site, where):
    x = args[0]
    dx = dl(ev, st, x)
    dx = dx if dx.op in ("cmp", "reverse", "adt", "phi") else ev.deep(st, x)

    def g(s):
        return ev.apply(s, args[1], [], site, where) if callee["path"].endswith("with") else (args[1], s)
    return cond_apply(ev, st, x, (variant(dx, "Equal"), g), (variant_not(dx, ("Equal",)), lambda s: (dx, s)))


@m("Ordering::is_eq", "Ordering::is_ne", "Ordering::is_lt", "Ordering::is_gt", "Ordering::is_le", "Ordering::is_ge")
def ois(ev, st, args, tys, callee, site, where):
    x = ev.deep(st, args[0])
    n = callee["path"].split("_")[-1]
    r = mk("isv", x, {"eq": "Equal", "ne": "Equal", "lt": "Less", "ge": "Less", "gt": "Greater", "le": "Greater"}[n])
    return (not_(r) if n in ("ne", "ge", "le") else r), st


@m("std::cmp::Ord::max", "std::cmp::max")
def omax(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    return mk("max", *sorted((a, b), key=lambda t: t.n)), st


@m("std::cmp::Ord::min", "std::cmp::min")
def omin(ev, st, args, tys, callee, site, where):
    a, b = d2(ev, st, args)
    return mk("min", *sorted((a, b), key=lambda t: t.n)), st


# ---- collections
@m("Vec::len", "impl::len", "VecDeque::len", "HashMap::len", "BTreeMap::len", "BTreeSet::len", "HashSet::len", "BinaryHeap::len",
   "String::len", "std::iter::ExactSizeIterator::len")
def ln(ev, st, args, tys, callee, site, where):
    return length(ev.deep(st, ev.load(st, args[0]))), st


@m("Vec::is_empty", "impl::is_empty", "VecDeque::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty",
   "HashSet::is_empty", "BinaryHeap::is_empty", "String::is_empty")
def is_empty(ev, st, args, tys, callee, site, where):
    return eq(length(ev.deep(st, ev.load(st, args[0]))), const(0)), st


RANGES = ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive")


def _range(i):
    if i.op == "adt":
        n = i.a[0].split("::")[-1]
        if n in RANGES:
            fs = dict(i.a[2])
            return fs.get("start"), fs.get("end")
    if i.op == "constitem" and "RangeFull" in str(i.a[0]):
        return None, None
    return False


@m("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def index(ev, st, args, tys, callee, site, where):
    v, i = args
    di = ev.deep(st, ev.load(st, i))
    ty = (callee.get("args") or ["", ""])[0]
    ev.emit("call", "std::ops::Index::index", (ev.deep(st, v), di), None, st, where, callee=callee)
    if ty.startswith("std::collections::"):
        return mk("idx", ev.deep(st, v), di), st
    r = _range(di)
    out = []
    for c, root, pa in ev.ptr(v):
        if r is False:
            out.append((c, mk("ref", root, pa + (("[]", di),))))
        elif r == (None, None):
            out.append((c, mk("ref", root, pa)))
        else:
            out.append((c, mk("ref", root, pa + (("[..]", r[0], r[1]),))))
    return phi(out), st


@m("impl::get_unchecked", "impl::get_unchecked_mut")
def get_unchecked(ev, st, args, tys, callee, site, where):
    v, i = args
    di = ev.deep(st, i)
    ev.emit("call", "get_unchecked", (ev.deep(st, v), di), None, st, where, callee=callee)
    return phi([(c, mk("ref", root, pa + (("[]", di),))) for c, root, pa in ev.ptr(v)]), st


@m("impl::get", "impl::get_mut", "Vec::get", "VecDeque::get", "VecDeque::get_mut")
def get(ev, st, args, tys, callee, site, where):
    v, i = args
    di = ev.deep(st, i)
    if _range(di) is not False:
        return None
    dv = ev.deep(st, v)
    r = phi([(c, mk("ref", root, pa + (("[]", di),))) for c, root, pa in ev.ptr(v)])
    inb = lt(di, length(dv))
    return phi([(truth(inb), some(r)), (truth(inb, False), NONE)]), st


@m("impl::first", "impl::first_mut", "VecDeque::front", "VecDeque::front_mut")
def first(ev, st, args, tys, callee, site, where):
    v = args[0]
    dv = ev.deep(st, v)
    r = phi([(c, mk("ref", root, pa + (("[]", const(0)),))) for c, root, pa in ev.ptr(v)])
    e = eq(length(dv), const(0))
    return phi([(truth(e, False), some(r)), (truth(e), NONE)]), st


@m("impl::last", "impl::last_mut", "VecDeque::back", "VecDeque::back_mut")
def last(ev, st, args, tys, callee, site, where):
    v = args[0]
    dv = ev.deep(st, v)
    r = phi([(c, mk("ref", root, pa + (("[]", sub(length(dv), const(1))),))) for c, root, pa in ev.ptr(v)])
    e = eq(length(dv), const(0))
    return phi([(truth(e, False), some(r)), (truth(e), NONE)]), st


# ---- iterator adapters
def adapter(kind, fn=None):
    def f(ev, st, args, tys, callee, site, where):
        a = list(args)
        if kind in ("skip", "take"):
            a[1] = ev.deep(st, a[1])
        return mk("it", kind, *a), st
    return f


for nm in ("map", "filter", "filter_map", "flat_map", "flatten", "enumerate", "rev", "skip", "take", "zip", "chain", "cloned",
           "take_while", "skip_while", "map_while", "scan"):
    MODELS["std::iter::Iterator::" + nm] = adapter(nm)
MODELS["std::iter::Iterator::copied"] = adapter("cloned")
for nm in ("keys", "values", "values_mut", "into_keys", "into_values"):
    for ty in ("HashMap", "BTreeMap"):
        MODELS["%s::%s" % (ty, nm)] = adapter("keys" if "key" in nm else "values")


@m("std::iter::once")
def once(ev, st, args, tys, callee, site, where):
    return mk("it", "once", args[0]), st


@m("std::iter::empty")
def empty(ev, st, args, tys, callee, site, where):
    return NONE, st


@m("std::iter::repeat")
def repeat(ev, st, args, tys, callee, site, where):
    return mk("it", "repeat", args[0]), st


@m("core::num::impl::pow")
def pow_(ev, st, args, tys, callee, site, where):
    r = mk("call", "core::num::impl::pow", tuple(ev.deep(st, a) for a in args))
    ev.emit("call", "core::num::impl::pow", r.a[1], r, st, where, callee=callee)
    ty = callee["path"].split("<impl ")[-1].split(">")[0]
    if ty in ("u8", "u16", "u32", "i8", "i16", "i32"):
        return mk("cast", r, "u64", ty), st                  # the bits beyond are lost
    return r, st


PLAIN = ("map", "enumerate", "cloned", "rev", "skip", "keys", "values")


def built_list(ev, x):
    """a list that is filled in a loop"""
    for _ in range(8):
        if x.op != "loop" or x not in ev.loops or ev.loops[x]["init"] is None:
            break
        x = ev.loops[x]["init"]
    else:
        return False
    return x.op == "call" and x.a[0].endswith(("Vec::new", "Vec::with_capacity")) or x.op == "array" and not x.a


def plain_first(ev, st, it, v, site, callee, where):
    """the first element of an iterator that was made for this use alone"""
    if it.op != "ref" or it.a[0][0] != "L" or it.a[1] or not callee["path"].endswith("::next"):
        return None
    chain, blk = site.rsplit("/", 1)
    f = ev.p.fns.get(ev.stack[-1])
    if it.a[0][1] != chain or f is None or not blk.isdigit() or ev.repeats(f, int(blk), it.a[0][2]):
        return None
    x, n = v, 0
    while x.op == "it" and x.a[0] in PLAIN:
        if x.a[0] == "skip" and not is_const(x.a[2]):
            return None
        x = x.a[1]
    if x.op != "ref" and x.op not in ("arg", "f", "idx", "coll") and not built_list(ev, x):
        return None
    if x.op == "ref" and ev.load(st, x).op in ("it", "loop", "call", "eff", "adt", "phi", "ref", "closure") and not built_list(ev, ev.load(st, x)):
        return None
    st2, c, e = ev.elem(st, v, const(0), site, where)
    ev.emit("next", "next", (ev.deep(st, v),), ev.deep(st2, e), st, where, callee=callee)
    n = c_not(c)
    st3 = St(dict(st2.s), st.c)
    st3.set(it.a[0], (), mk("it", "skip", v, const(1)) if not (v.op == "it" and v.a[0] == "skip") else mk("it", "skip", v.a[1], add(v.a[2], const(1))))
    return phi([(c, some(e)), (n, NONE)]), st3


@m("std::iter::Iterator::next", "std::iter::DoubleEndedIterator::next_back")
def nxt(ev, st, args, tys, callee, site, where):
    it = args[0]
    v = ev.load(st, it)
    pos = mk("pos", site)
    first_ = plain_first(ev, st, it, v, site, callee, where)
    if first_ is not None:
        return first_
    src = v if v.op in ("it", "ref", "adt", "loop", "phi", "call") else it
    if src.op == "phi" and not any(x.op in ("it", "ref") for _, x in src.a[0]):
        src = it
    if v.op in ("idx", "f", "arg", "call", "eff"):
        # an opaque iterator: the state changes
        src = v
    st = st.copy()
    st, c, e = ev.elem(st, src, pos, site, where)
    ev.iterlits |= lits(c)
    ev.emit("next", "next", (ev.deep(st, src),), ev.deep(st, e), st, where, callee=callee)
    n = c_not_exact(c)
    st2 = St(st.s, c_and(st.c, c_or(c, n)))
    if isinstance(it, T) and it.op == "ref" and v.op in ("idx", "f", "arg", "call", "eff", "loop") and not (v.op == "loop" and v in ev.loops and ev.loops[v]["init"] is not None and ev.loops[v]["init"].op in ("it", "ref", "adt")):
        st2.set(it.a[0], it.a[1], mk("eff", mk("call", "next", (ev.deep(st2, v),)), 0))
        return phi([(c, some(mk("idx", ev.deep(st, v), pos))), (n, NONE)]), st2
    return phi([(c, some(e)), (n, NONE)]), st2


def c_not_exact(c):
    mores = [l for l in lits(c) if l[0].op == "more"]
    if mores:
        # exhausted: the underlying iterator has no more elements
        return frozenset([frozenset([(mores[0][0], False)])])
    return c_not(c)


def local_from_iter(ev, ty):
    """the repository's own FromIterator for the type something is collected into"""
    tab = getattr(ev.p, "_fi", None)
    if tab is None:
        tab = ev.p._fi = {}
        for f in ev.p.fns.values():
            if f["kind"] != "closure" and (f.get("trait") or "").endswith("FromIterator"):
                h = f["self_ty"].split("<")[0]
                tab[f["crate"] + "::" + h] = f
                tab[h] = f
    return tab.get(ty.split("<")[0])


def _consume(kind):
    def f(ev, st, args, tys, callee, site, where):
        t = callee.get("args") or ["", ""]
        if kind == "collect" and len(t) > 1:
            g = local_from_iter(ev, t[1])
            if g is not None and g["id"] not in ev.stack:
                return ev.eval_fn(g, [args[0]], st, site + ">fi")
        st2, coll = ev.consume(st, args[0], site, where, t[1].split("<")[0].split("::")[-1] if kind == "collect" and len(t) > 1 else "")
        ev.emit("consume", kind, (coll,), None, st2, where, callee=callee)
        if kind == "collect" and len(t) > 1 and t[1].startswith(("std::option::Option<", "std::result::Result<", "core::option::Option<", "core::result::Result<")):
            # the whole collection or the first failure
            o = "option::Option" in t[1].split("<")[0]
            y = "Some" if o else "Ok"
            inner = t[1].split("<", 1)[1].split("<")[0].split("::")[-1]
            good = mk("all", mk("isv", coll.a[0], y), coll.a[1])
            c = mk("coll", field(coll.a[0], "0", y), coll.a[1], coll.a[2], inner)
            bad = NONE if o else err(field(mk("failed", coll), "0", "Err"))
            return phi([(truth(good), (some if o else ok)(c)), (truth(good, False), bad)]), st2
        if kind == "collect":
            t = (callee.get("args") or ["", ""])
            g = local_from_iter(ev, t[1]) if len(t) > 1 else None
            if g is not None and g["id"] not in ev.stack:
                return ev.eval_fn(g, [coll], st2, site + ">fi")
            return coll, st2
        return mk("call", "std::iter::Iterator::" + kind, (coll,)), st2
    return f


for nm in ("collect", "sum", "product", "count", "max", "min", "last", "unzip"):
    MODELS["std::iter::Iterator::" + nm] = _consume(nm)


@m("std::iter::FromIterator::from_iter")
def from_iter(ev, st, args, tys, callee, site, where):
    if callee.get("rid") in ev.p.fns:
        return None
    st2, coll = ev.consume(st, args[0], site, where)
    ev.emit("consume", "collect", (coll,), None, st2, where, callee=callee)
    return coll, st2


@m("std::iter::Iterator::for_each")
def for_each(ev, st, args, tys, callee, site, where):
    st2, coll = ev.consume(st, mk("it", "map", args[0], args[1]), site, where)
    return UNIT, st2


@m("std::iter::Iterator::try_for_each")
def try_for_each(ev, st, args, tys, callee, site, where):
    t = (callee.get("args") or ["", ""])
    rt = next((x for x in reversed(t) if x.split("<")[0].split("::")[-1] in ("Option", "Result")), None)
    if rt is None:
        return None
    it = args[0]
    v = ev.load(st, it)
    src = v if v.op in ("it", "ref", "adt", "loop", "phi") else it
    st2, coll = ev.consume(st, mk("it", "map", src, args[1]), site, where)
    o = "Option" in rt.split("<")[0]
    good = mk("all", mk("isv", coll.a[0], "Some" if o else "Ok"), coll.a[1])
    bad = NONE if o else err(field(mk("failed", coll), "0", "Err"))
    return phi([(truth(good), (some if o else ok)(UNIT)), (truth(good, False), bad)]), st2


@m("std::iter::Iterator::all", "std::iter::Iterator::any")
def all_any(ev, st, args, tys, callee, site, where):
    it = args[0]
    v = ev.load(st, it)
    src = v if v.op in ("it", "ref", "adt", "loop", "phi") else it
    st2, coll = ev.consume(st, mk("it", "map", src, args[1]), site, where)
    pred = coll.a[0]
    ev.emit("consume", callee["path"].split("::")[-1], (coll,), None, st2, where, callee=callee)
    if callee["path"].endswith("all"):
        return mk("all", pred, coll.a[1]), st2
    return not_(mk("all", not_(pred), coll.a[1])), st2


@m("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map", "std::iter::Iterator::rposition",
   "std::iter::DoubleEndedIterator::rfind")
def find(ev, st, args, tys, callee, site, where):
    it = args[0]
    v = ev.load(st, it)
    src = v if v.op in ("it", "ref", "adt", "loop", "phi") else it
    k = callee["path"].split("::")[-1]
    pos = mk("pos", site)
    box = {}
    kind = {"find": "filter", "rfind": "filter", "find_map": "filter_map"}.get(k, "map")
    at = mk("ord", pos) if sparse(src) else pos
    if k in ("rposition", "rfind"):
        src, at = mk("it", "rev", src), mk("revp", at)
    inner = mk("it", kind, src, args[1])

    def body(s):
        s1, c, e = ev.elem(s, inner, pos, site, where)
        box["e"], box["c"], box["d"] = e, c, ev.deep(s1, e)
        return s1
    st2 = ev.loop_eval(st, body, site)
    if k in ("find", "find_map", "rfind"):
        c = box["c"]
        dom, keep = split_dom(c)
        return phi([(c, some(box["e"])), (truth(mk("all", keep, dom)), NONE)]), st2
    c = c_and(box["c"], truth(box["d"]))
    return phi([(c, some(at)), (truth(mk("all", not_(box["d"]), box["c"])), NONE)]), st2


def split_dom(c):
    """(positions that are visited, what does not hold at any of them) of the condition under which something is found"""
    d = frozenset.intersection(*[frozenset(l for l in k if l[0].op == "more" and l[1]) for k in c])
    alt = None
    for k in sorted(c, key=lambda k: sorted(l[0].n for l in k)):
        x = None
        for p, v in sorted(k - d, key=lambda l: l[0].n):
            y = p if v else not_(p)
            x = y if x is None else mk("and", x, y)
        if x is None:
            return frozenset([d]), FALSEV
        alt = x if alt is None else mk("or", alt, x)
    return frozenset([d]), not_(alt)


@m("std::iter::Iterator::eq", "std::iter::Iterator::ne")
def iter_eq(ev, st, args, tys, callee, site, where):
    st, a = ev.consume(st, args[0], site + "a", where, "Vec")
    st, b = ev.consume(st, args[1], site + "b", where, "Vec")
    r = eq(plain(a), plain(b))
    return (r if callee["path"].endswith("eq") else not_(r)), st


def plain(c):
    """the list itself when all of its elements are collected in order"""
    if len(c.a[1]) == 1:
        (k,) = c.a[1]
        if len(k) == 1:
            ((p, v),) = k
            if v and p.op == "more" and p.a[1].op == "pos" and c.a[0] is idx(p.a[0], p.a[1]):
                return p.a[0]
    return c


@m("std::iter::Iterator::fold")
def fold(ev, st, args, tys, callee, site, where):
    it, init, f = args
    root = ("L", site + ">acc", 0)
    st = st.copy()
    st.set(root, (), init)
    pos = mk("pos", site)

    def body(s):
        s1, c, e = ev.elem(s, it, pos, site, where)
        s2 = ev.with_cond(s1, c)
        acc = ev.read(s2, root, ())
        v, s3 = ev.apply(s2, f, [acc, e], site, where)
        if s3 is None:
            return None
        s3 = St(dict(s3.s), s3.c)
        s3.set(root, (), v)
        return s3
    st2 = ev.loop_eval(st, body, site)
    st2 = St(dict(st2.s), st.c)
    r = ev.read(st2, root, ())
    return r, st2


@m("Vec::extend_from_slice", "std::iter::Extend::extend", "Vec::extend", "Vec::append")
def extend(ev, st, args, tys, callee, site, where):
    if callee.get("rid") in ev.p.fns:
        return None
    src = args[1]
    moved = ev.ptr(src) if src.op == "ref" and callee["path"].endswith("append") else None
    if moved is not None and len(moved) != 1:
        return None
    st2, coll = ev.consume(st, ev.deep(st, src) if moved else src, site, where)
    if moved:
        st2 = st2.copy()
        st2.set(moved[0][1], moved[0][2], mk("call", "std::vec::Vec::new", ()))
    p = ev.ptr(args[0])
    st2 = st2.copy()
    dv = ev.deep(st2, args[0])
    ret = mk("call", "std::iter::Extend::extend", (dv, coll))
    ev.emit("call", "std::iter::Extend::extend", (dv, coll), ret, st2, where, callee=callee)
    for c, root, pa in p:
        st2.set(root, pa, mk("eff", ret, 0))
        if root[0] == "M":
            ev.emit("write", "extend", (root[1], mk("eff", ret, 0)), None, st2, where, extra=(root, pa))
    return UNIT, st2


@m("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Entry::or_insert_with_key")
def or_insert(ev, st, args, tys, callee, site, where):
    c = ev.deep(st, args[0])
    n = callee["path"].split("::")[-1]
    box = {}

    def f(s):
        if n == "or_insert":
            v, s2 = args[1], s
        elif n == "or_default":
            v, s2 = mk("call", "std::default::Default::default", ()), s
        else:
            v, s2 = ev.apply(s, args[1], [field(c, "0", "Vacant")] if n.endswith("key") else [], site, where)
        box["v"] = ev.deep(s2 or s, v)
        return UNIT, s2
    vac = lit(mk("is", c, "Vacant"))
    _, st2 = cond_apply(ev, st, c, (vac, f), (c_not(vac), lambda s: (UNIT, s)))
    r = mk("call", "Entry::or_insert", (c, box.get("v", mk("undef"))))
    st3 = St(st2.s, st.c) if st2 is not None else st
    ev.emit("call", "Entry::or_insert", r.a[1], r, st3, where, callee=callee)
    return r, st3


@m("Entry::and_modify")
def and_modify(ev, st, args, tys, callee, site, where):
    c = ev.deep(st, args[0])
    occ = lit(mk("is", c, "Vacant"), False)
    _, st2 = cond_apply(ev, st, c, (occ, lambda s: ev.apply(s, args[1], [field(c, "value", "Occupied")], site, where)),
                        (c_not(occ), lambda s: (UNIT, s)))
    return args[0], (St(st2.s, st.c) if st2 is not None else st)


# ---- function values
@m("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def fncall(ev, st, args, tys, callee, site, where):
    tup = args[1]
    a = list(tup.a) if tup.op == "tuple" else [tup]
    return ev.apply(st, args[0], a, site, where)


@m("bool::then", "impl::then")
def bthen(ev, st, args, tys, callee, site, where):
    d = ev.deep(st, args[0])

    def f(s):
        v, s2 = ev.apply(s, args[1], [], site, where)
        return some(v), s2
    return cond_apply(ev, st, d, (truth(d), f), (truth(d, False), lambda s: (NONE, s)))


# ---- arithmetic on unknown types (kept symbolic, order preserved)
@m("std::convert::From::from", "std::convert::Into::into")
def from_(ev, st, args, tys, callee, site, where):
    a = callee.get("args") or []
    if len(a) >= 2 and a[0] == a[1]:
        return args[0], st
    INTS = ("u8", "u16", "u32", "u64", "usize", "i32", "i64")
    if len(a) >= 2 and a[0] in INTS and a[1] in INTS:
        return ev.deep(st, args[0]), st
    if len(a) >= 1 and a[0] == "std::string::String":
        return ev.deep(st, args[0]), st
    return None


@m("std::ops::ControlFlow::is_break")
def _none(ev, st, args, tys, callee, site, where):
    return None


DIVERGE = ("panic", "panic_fmt", "panicking::panic", "begin_panic", "unreachable_display", "panic_explicit", "assert_failed",
           "panic_display", "unwrap_failed", "expect_failed", "panic_nounwind", "panic_str_2015", "unimplemented", "todo")


@m("Vec::resize_with", "VecDeque::resize_with")
def resize_with(ev, st, args, tys, callee, site, where):
    """resizing with a function that always makes the same value is resizing with that value"""
    f = args[2]
    if f.op == "fnitem" and f.a[1].split("::")[-1] in ("new", "default"):
        v, st2 = mk("call", "std::vec::Vec::new", ()), st
    elif f.op == "closure" and not f.a[0]:
        v, st2 = ev.apply(st, f, [], site, where)
        if st2 is None or ev.deep(st2, v).op not in ("call", "c", "array"):
            return None
        v = ev.deep(st2, v)
    else:
        return None
    return UNIT, ev.external(St(st2.s, st.c), "Vec::resize", [args[0], args[1], v], tys, callee, site, where)[1]


@m("impl::parse")
def parse(ev, st, args, tys, callee, site, where):
    return ev.external(st, "std::str::FromStr::from_str", args, tys, callee, site, where)
