"""Rules about symbols and their orders: equivalence relations, bracket words, Gorn trees, equality / hashing / order of items."""
from itertools import product
from base import *
from pat import *
from view import is_empty_new
from containers import base_of, arg, key_of, DONE, PUT1


# ---------------------------------------------------------------- E01
def fr(k):
    """a conjunction in which `the key was not recorded yet` has one form"""
    out = set()
    for p, v in k:
        n = fresh(p, v)
        out.add((p, v) if n is None else (mk("new", key_of(p)), n))
    return frozenset(out)


def frc(c):
    return frozenset(fr(k) for k in c)


def NEW(key):
    return OP("new", key)


def coll_fr(t):
    """a collection with the conditions in this form"""
    if t.op == "coll":
        return mk("coll", t.a[0], frc(t.a[1]), t.a[2], t.a[3])
    return t


def whole(t):
    """collected without stopping early"""
    return t.op == "coll" and not t.a[3].startswith("until:")


class Classes:
    """building a relation from the classes M (label, members) and the default label D"""
    def __init__(self, M, D):
        self.c = IX(M, I("i"))
        self.label, self.members = F(self.c, "0"), F(self.c, "1")
        self.el = IX(self.members, I("j"))
        same = EQ(D, self.label)
        noclash = [(EQ(D, F(IX(M, ANY), "0")), False), (NEW(D), True)]
        self.map = COLL(TUP(self.el, self.label), [MORE(M, I("i")), MORE(self.members, I("j"))], [(NEW(self.el), True)] + noclash)
        self.shared = ([MORE(M, I("i")), MORE(self.members, I("j")), (NEW(self.el), False)], noclash + [DONE])
        self.named = ([(same, True)], [(MORE(M, I("i")), True), DONE])
        self.named2 = ([(NEW(D), False)], [DONE])
        self.noclash = noclash


def building(ctx, f, view, who, M, D, env, pre=(), extra=()):
    """accepting: literals `pre`; rejecting: `extra` = [(name, text, literals, optional ones)]"""
    C = Classes(M, D)
    oks = [(k, v) for c, v in view.returns() for k in frc(unroll(c)) if is_ok(v)]
    errs = [k for c, v in view.returns() for k in frc(unroll(c)) if is_err(v)]
    ctx.ob(who + ":constructs", bool(oks), "%s can succeed" % who, f)
    for k, v in oks:
        r = payload(v)
        if not ctx.ob(who + ":value", is_adt(r, "EquivalenceRelation"), "the result is the relation built here, not " + show(r), f):
            continue
        m = coll_fr(field(r, "map"))
        ctx.ob(who + ":collected", first(C.map, m, env) is not None, "the map holds every member of every class, with the label of its own class: " + show(m), f)
        ctx.ob(who + ":default", first(D, field(r, "default"), env) is not None, "the default class of the relation is the one given: " + show(field(r, "default")), f)
        ctx.ob(who + ":accepts", first_conj(list(pre), [DONE] + C.noclash, k, env) is not None,
               "disjoint classes are accepted under no further condition: " + showc(frozenset([k])), f)
    P = list(pre)
    reasons = [("rejects-shared", "classes that share an element", C.shared[0], C.shared[1] + P),
               ("rejects-default", "a class named like the default class", C.named[0], C.named[1] + P),
               ("rejects-default", "", C.named2[0], C.named2[1] + P)] + list(extra)
    hit = set()
    for k in errs:
        why = [n for n, _, l, o in reasons if first_conj(l, o, k, env) is not None]
        hit |= set(why)
        ctx.ob(who + ":rejects-only", bool(why), "classes are rejected only for one of the reasons given; here: " + showc(frozenset([k])), f)
    for n, t, _, _ in reasons:
        if t:
            ctx.ob("%s:%s" % (who, n), n in hit, t + " is always rejected", f)


def e01(ctx):
    f = ctx.method(r"EquivalenceRelation<", None, "new_safe")
    if f:
        building(ctx, f, ctx.view(f), "new_safe", arg(f, 1), arg(f, 2), {})
    g = ctx.method(r"EquivalenceRelation<", None, "project")
    if g:
        v = ctx.view(g)
        s, key = arg(g, 1), arg(g, 2)
        m = field(s, "map")
        got = CALL(("HashMap::get",), m, key)
        has, has2 = IS(got, "Some"), CALL(("contains_key",), m, key)
        want = set()
        for k, r in paths(v):
            a = first_conj([(ALT(has, has2), True)], [], k) is not None and first(ALT(F(got, "Some:0"), IX(m, key)), r) is not None
            b = first_conj([(ALT(has, has2), False)], [], k) is not None and r is field(s, "default")
            ctx.ob("project", a or b, "an element is projected to the class recorded for it, and to the default class only if there is none: %s if %s" % (
                show(r), showc(frozenset([k]))), g)
            want |= {"a"} if a else {"b"} if b else set()
        ctx.ob("project:total", len(want) == 2, "both recorded and other elements have a class", g)
    h = ctx.method(r"EquivalenceRelation<", r"From<", "from")
    if h:
        v = ctx.view(h)
        cs = arg(h, 1)
        c = IX(cs, I("i"))
        S = F(c, "set", "Some:0")
        el = IX(S, I("j"))
        for k, r in paths(v):
            if not is_adt(r, "EquivalenceRelation"):
                continue
            m = coll_fr(field(r, "map"))
            ctx.ob("from:collected", whole(m) and first(COLL(TUP(el, F(c, "label")), [MORE(cs, I("i")), MORE(S, I("j"))], [(NEW(el), True), IS(F(c, "set"), "Some")]), m)
                   is not None, "the map holds every element of every class, with the label of its own class: " + show(m), h)
            d = field(r, "default")
            ctx.ob("from:default", d.op == "f" and default_loop(v, d.a[0], lambda x: first(F(c, "label"), x) is not None) or v.loops.get(d) is not None,
                   "the default class is the label of a class without elements: " + show(d), h)
    q = ctx.method(r"EquivalenceRelation<", r"PartialEq", "eq")
    if q:
        eq_fields(ctx, q, {"default", "map"}, "relation-eq")
    s = ctx.method(r"EquivalenceRelation<", r"FromStr", "from_str")
    if s:
        from_str_classes(ctx, s)
    c = ctx.method(r"EquivalenceClass<", r"From<", "from")
    if c:
        v = ctx.view(c)
        a = arg(c, 1)
        given = field(a, "1")
        els = field(given, "0", "Some")
        kinds = set()
        for k, r in paths(v):
            if not ctx.ob("class-from:label", is_adt(r, "EquivalenceClass") and field(r, "label") is field(a, "0"), "a class keeps its label: " + show(r), c):
                continue
            for cc, st in alts(field(r, "set")):
                for kk in c_and(frozenset([k]), cc):
                    if is_some(st):
                        x = coll_fr(payload(st))
                        good = first_conj([IS(given, "Some")], [DONE], kk) is not None and (x is els or whole(x) and first(
                            COLL(IX(els, I("i")), [MORE(els, I("i"))], [(NEW(IX(els, I("i"))), True)]), x) is not None)
                        kinds.add(1)
                    else:
                        good = is_none(st) and first_conj([(IS(given, "Some"), False)], [DONE], kk) is not None
                        kinds.add(0)
                    ctx.ob("class-from", good, "a class holds all of the elements given, and is a default class iff none are given: %s if %s" % (
                        show(st), showc(frozenset([kk]))), c)
        ctx.ob("class-from:total", len(kinds) == 2, "classes with elements and default classes are made", c)


def from_str_classes(ctx, s):
    v = ctx.view(s)
    lines = CALL(("lines",), arg(s, 1))
    line = IX(lines, I("l"))
    parsed = WHERE(CALL(("::parse", "FromStr::from_str", "from_str"), V("text", lambda t: any(first(line, y) for y in walk(t)))), lambda e: True)
    found = {}
    for x in v.events:
        if x.kind == "call" and x.ret is not None and x.ret.op == "call":
            for e in match(parsed, x.ret, {}):
                found[x.ret] = (e, x)
    ctx.ob("from_str:reads", len(found) == 1, "the classes of the text are parsed at one place", s)
    if len(found) != 1:
        return
    (p0, (env, _)), = found.items()
    text = env["text"]
    ln = [y for y in walk(text) if first(line, y)][0]
    L = ln.a[1]
    more_l = mk("more", ln.a[0], L)
    blank = EQ(LEN(V("b", lambda t: any(y is ln for y in walk(t)))), const(0))
    cls = field(p0, "0", "Ok")
    label, okp, isset = field(cls, "label"), mk("is", p0, "Ok"), mk("is", field(cls, "set"), "Some")
    for x in v.events:
        if x.kind == "call" and x.ret is p0:
            for k in x.cond:
                ctx.ob("from_str:every-line", first_conj([(more_l, True)], [(blank, False)], k) is not None, "only blank lines are skipped: " + showc(x.cond), s)
    ctx.ob("from_str:trimmed", is_call(text, "trim") and text.a[1][0] is ln, "the space around a class is ignored: " + show(text), s)
    base = [(more_l, True)]
    opt = [(blank, False)]
    # the default label: a local that is empty first and set to the label of a class without elements
    prev = None
    for k, r in paths(v):
        if is_ok(r) and is_adt(payload(r), "EquivalenceRelation"):
            d = field(payload(r), "default")
            if d.op == "f" and d.a[1:] == ("0", "Some") and default_loop(v, d.a[0], lambda x: x is label):
                prev = d.a[0]
    if not ctx.ob("from_str:default", prev is not None, "the default class is the class without elements", s):
        return
    had = mk("is", prev, "Some")
    # the classes read
    m = [x for x in v.events for y in x.args for x in walk(y) if x.op == "coll" and first(
        COLL(TUP(label, fld(cls, "set", "Some:0")), [(more_l, True), (isset, True)],
             [(okp, True), (blank, False), (NEW(label), True)]), coll_fr(x)) is not None]
    if not ctx.ob("from_str:classes", bool(m), "the classes with elements are collected, each with its own label", s):
        return
    new = NEW(label)
    building(ctx, s, v, "from_str", V("M", lambda t: t in m), field(prev, "0", "Some"), {}, [(had, True)], [
        ("malformed", "a line that is no class", base + [(okp, False)], opt),
        ("class-twice", "a class that is defined twice", base + [okp, isset, (new, False)], opt),
        ("default-twice", "a second default class", base + [okp, (isset, False), had], opt),
        ("no-default", "a text without default class", [(had, False)], [DONE])])


def default_loop(v, t, is_label):
    L = v.loops.get(t)
    if not L or not is_none(L["init"]):
        return False
    for b in L["back"]:
        for c, x in alts(v.rw(b)) if b.op != "loop" else [(TRUE, b)]:
            if x is t or is_some(x) and is_label(payload(x)):
                continue
            return False
    return True


# ---------------------------------------------------------------- equality
def eq_fields(ctx, f, want, who):
    """a field-wise equality over exactly the fields `want`"""
    v = ctx.view(f)
    t, fa = bools(v)
    atoms = set(p for c in (t, fa) for k in c for p, _ in k)
    names = {}
    good = True
    for p in atoms:
        if p.op != "eq" or len(p.a) != 2:
            good = False
            continue
        (r1, p1), (r2, p2) = path_of(p.a[0]), path_of(p.a[1])
        if r1.op != "arg" or r2.op != "arg" or r1 is r2 or p1 != p2 or not p1:
            good = False
            continue
        names[p1[0]] = p
    ctx.ob(who + ":field-wise", good, "corresponding fields are compared: " + showc(t), f)
    ctx.ob(who + ":fields", set(names) == want, "equality compares exactly %s, here %s" % (sorted(want), sorted(names)), f)
    ctx.ob(who + ":conjunction", t == frozenset([frozenset((p, True) for p in names.values())]), "two items are equal iff all these fields are: " + showc(t), f)
    return set(names)


# ---------------------------------------------------------------- D01
def initially(v, t):
    """the value a state has at first"""
    for _ in range(20):
        if t.op == "loop" and t in v.loops and v.loops[t]["init"] is not None:
            t = v.loops[t]["init"]
        elif t.op == "eff" and t.a[1] == 0 and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in PUT1 + ("pop", "pop_back"):
            t = t.a[0].a[1][0]
        else:
            break
    return t


def d01(ctx):
    f = ctx.fn(r"dyck::recognize$")
    if not f:
        return
    v = ctx.view(f)
    word = arg(f, 1)
    t, fa = FALSE, FALSE
    for c, x in v.returns():
        t, fa = c_or(t, unroll(c_and(c, truth(x, True)))), c_or(fa, unroll(c_and(c, truth(x, False))))
    br = IX(word, I("i"))
    more_ = (MORE(word, I("i")), True)
    isopen = [(IS(br, "Open"), True), (IS(br, "Close"), False)]
    isclose = [(IS(br, "Open"), False), (IS(br, "Close"), True)]
    pushes = [x for x in v.events if x.kind == "call" and x.path.split("::")[-1] in ("push", "push_back", "insert", "push_front", "extend")]
    pops = [x for x in v.events if x.kind == "call" and x.path.split("::")[-1] in ("pop", "pop_back", "remove", "truncate", "clear", "pop_front", "swap_remove", "drain")]
    good = len(set(x.path.split("::")[-1] for x in pushes + pops)) == 2 and all(x.path.split("::")[-1] in ("push", "push_back", "pop", "pop_back") for x in pushes + pops)
    ctx.ob("stack", good and len(pushes) >= 1 and len(pops) >= 1, "open brackets are kept on a stack: " + ", ".join(x.path for x in pushes + pops), f)
    if not good:
        return
    for x in pushes + pops:
        ctx.ob("empty-at-first", is_empty_new(initially(v, x.raw.args[0])), "no bracket is open at first: " + show(x.raw.args[0]), f)
    for x in pushes:
        ctx.ob("opens", first(F(br, "Open:0"), x.args[1]) is not None, "the annotation of every opening bracket is pushed: " + show(x.args[1]), f)
        for k in x.cond:
            ctx.ob("opens-all", any(first_conj([more_, o], isopen, k, first(F(br, "Open:0"), x.args[1])) is not None for o in isopen),
                   "every opening bracket is pushed: " + showc(x.cond), f)
    top = V("top", lambda y: y.op == "call" and y in [x.ret for x in pops] or y.op == "idx" and is_call_last(y))
    val = ALT(F(WHERE(V("pop", lambda y: y in [x.ret for x in pops]), lambda e: True), "Some:0"), V("last", is_call_last))
    gone = V("pop2", lambda y: y in [x.ret for x in pops])
    before = set(y for x in pops for y in (x.args[0], x.raw.args[0]))
    some_open = [(IS(gone, "Some"), True), (EQ(LEN(V("st", lambda y: y in before)), const(0)), False), (IS(gone, "None"), False)]
    none_open = [(p, not x) for p, x in some_open]
    equal = EQ(val, F(br, "Close:0"))
    for x in pops:
        for k in x.cond:
            ctx.ob("closes-all", any(first_conj([more_, c], isclose + some_open + [(equal, True)], k) is not None for c in isclose),
                   "every closing bracket is matched: " + showc(x.cond), f)
    end = (MORE(word, ANY), False)
    reasons = [("rejects-underflow", "a closing bracket without opening one", [more_], isclose + none_open, [1]),
               ("rejects-mismatch", "a closing bracket with another annotation", [more_, (equal, False)], isclose + some_open, []),
               ("rejects-open", "a word with brackets left open", [end, (EQ(LEN(V("st")), const(0)), False)], [], [])]
    hit = set()
    for k in fa:
        why = [n for n, _, l, o, need in reasons if first_conj(l, o, k) is not None and (not need or any(first_conj([q], [], k, rest=True) is not None for q in none_open))]
        hit |= set(why)
        ctx.ob("rejects", bool(why), "a word is rejected only at a closing bracket that does not match, or for brackets left open: " + showc(frozenset([k])), f)
    for n, what, _, _, _ in reasons:
        ctx.ob(n, n in hit, what + " is rejected", f)
    ctx.ob("accepts-some", bool(t), "well-nested words are accepted", f)
    for k in t:
        ctx.ob("accepts", first_conj([end, (EQ(LEN(V("st")), const(0)), True)], [], k) is not None,
               "a word is accepted iff it was read to its end and no bracket is left open: " + showc(frozenset([k])), f)


def is_call_last(y):
    """the last element of a list"""
    return y.op == "idx" and y.a[1] is sub(length(y.a[0]), const(1))


# ---------------------------------------------------------------- T01
def t01(ctx):
    ty = r"^util::tree::GornTree<V>"
    def keeps(src, x):
        one = IX(src, I("i"))
        return x is src or x.op == "coll" and x.a[3] in ("BTreeMap", "GornTree", "") and first(
            COLL(ALT(one, TUP(F(one, "0"), F(one, "1"))), [MORE(src, I("i"))]), x) is not None
    n = 0
    for name in ("get", "contains_key", "get_mut", "insert", "remove", "append", "entry", "split_off", "keys", "values", "values_mut", "clear"):
        fs = ctx.methods(ty, None, name)
        if not fs:
            continue
        f = fs[0]
        n += 1
        e = ctx.ev(f)
        m = field(arg(f, 1), "map")
        if name in ("keys", "values", "values_mut"):
            for k, v in paths(e):
                good = v.op in ("it", "itd") and v.a[0] == name.replace("_mut", "") and path_of(v.a[1]) == (mk("arg", 1, "self"), ["map"])
                ctx.ob("tree:" + name, good, "%s of a Gorn tree are those of its map: %s" % (name, show(v)), f)
            continue
        calls = [x for x in e.events if x.kind == "call" and "BTreeMap" in x.path and "util::tree" in x.fn]
        if name == "contains_key":
            for k, v in paths(e):
                good = not k and first(ALT(CALL(("contains_key",), m, arg(f, 2)), OP("isv", CALL(("get",), m, arg(f, 2)), "Some")), v) is not None
                ctx.ob("tree:contains_key", good, "an address is in a Gorn tree iff it is in its map: " + show(v), f)
            continue
        if name == "clear":
            z = ctx.view(f).final_value(arg(f, 1), "map")
            ctx.ob("tree:clear", is_empty_new(z), "clearing leaves no node: " + show(z), f)
            continue
        if name == "append" and [x for x in calls if x.path.split("::")[-1] != "append"]:
            v, o = ctx.view(f), arg(f, 2)
            mine, rest = v.final_value(arg(f, 1), "map"), v.final_value(o, "map")
            put = mine.op == "eff" and mine.a[1] == 0 and is_call(mine.a[0], "extend") and mine.a[0].a[1][0] is m and keeps(field(o, "map"), mine.a[0].a[1][1])
            if not put and mine.op in ("loop", "cat", "coll") and not [x for x in calls if x.path.split("::")[-1] in ("entry", "contains_key", "get")]:
                ctx.undecided("tree:append", show(mine), f)
                continue
            ctx.ob("tree:append", put and is_empty_new(rest), "append moves all nodes of the other tree here: %s, %s" % (show(mine), show(rest)), f)
            continue
        good = len(calls) == 1 and calls[0].path.split("::")[-1] == name and frozenset() in calls[0].cond
        if good:
            a = calls[0].args
            good = path_of(a[0])[1] == ["map"] and path_of(a[0])[0].op == "arg" and path_of(a[0])[0].a[0] == 1
            for i, x in enumerate(a[1:]):
                r, p = path_of(x)
                good = good and r.op == "arg" and r.a[0] == i + 2 and p in ([], ["map"])
        ctx.ob("tree:" + name, good, "%s of a Gorn tree is %s of its map from addresses, with the same arguments: %s" % (
            name, name, ", ".join("%s(%s)" % (x.path, ", ".join(map(show, x.args))) for x in calls)), f)
        if good:
            for k, v in paths(e):
                if name == "append":
                    continue
                w = v
                if is_adt(v, "GornTree"):
                    w = field(v, "map")
                ctx.ob("tree:%s-result" % name, w is calls[0].ret or w.op == "tuple" and not w.a, "the result is that of the map: " + show(v), f)
    ctx.ob("tree:methods", n >= 11, "the operations of Gorn trees are analysed (%d)" % n)
    for name, what in (("len", "the number of addresses"), ("is_empty", "whether there is no address")):
        f = ctx.method(ty, None, name)
        if not f:
            continue
        x = length(field(arg(f, 1), "map"))
        for k, v in paths(ctx.ev(f)):
            good = not k and v is (x if name == "len" else eq(x, const(0)))
            ctx.ob("tree:" + name, good, "%s is %s: %s" % (name, what, show(v)), f)
    f = ctx.method(ty, r"PartialEq", "eq")
    if f:
        eq_fields(ctx, f, {"map"}, "tree-eq")
    f = ctx.method(r"^util::tree::GornTree<&", None, "cloned")
    if f:
        for k, v in paths(ctx.view(f)):
            m = field(v, "map") if is_adt(v, "GornTree") else v
            ctx.ob("tree:cloned", any(keeps(y, m) for y in (arg(f, 1), field(arg(f, 1), "map"))), "every node is copied to its own address: " + show(v), f)
    f = ctx.method(ty, r"FromIterator", "from_iter")
    if f:
        for k, v in paths(ctx.view(f)):
            m = field(v, "map") if is_adt(v, "GornTree") else v
            ctx.ob("tree:from_iter", keeps(arg(f, 1), m), "a tree is made of all given pairs of address and value, later ones replacing earlier ones: " + show(v), f)
    k = 0
    for f in ctx.methods(r"util::tree::GornTree<", r"IntoIterator", "into_iter"):
        k += 1
        for _, v in paths(ctx.ev(f)):
            m = field(arg(f, 1), "map")
            good = v is m or v.op in ("it", "itd") and v.a[0] in ("iter", "into_iter", "iter_mut", "elems") and v.a[1] is m
            ctx.ob("tree:into_iter", good, "a Gorn tree is traversed like its map: " + show(v), f)
    ctx.ob("tree:traversals", k == 3, "owned, shared and mutable traversals are analysed (%d)" % k)


# ---------------------------------------------------------------- H01
ITEMS = [(r"^grammars::cfg::CFGRule<", "CFGRule", {"head", "composition"}),
         (r"^grammars::pmcfg::PMCFGRule<", "PMCFGRule", {"head", "tail", "composition"}),
         (r"^recognisable::configuration::Configuration<", "Configuration", {"word", "storage"}),
         (r"^recognisable::transition::Transition<", "Transition", {"word", "instruction"})]


def hashed(ctx, f):
    """fields that flow into the hasher"""
    v = ctx.view(f)
    out = set()
    bad = []
    for x in v.events:
        if x.kind == "call" and x.path.split("::")[-1] in ("hash", "hash_slice") and "hash" in x.path:
            for y in walk(x.args[0]):
                r, p = path_of(y)
                if y.op == "f" and r.op == "arg" and r.a[0] == 1:
                    out.add(p[0])
            if not any(y.op == "f" and path_of(y)[0].op == "arg" and path_of(y)[0].a[0] == 1 for y in walk(x.args[0])) or any(
                    y.op in ("cast", "addr") for y in walk(x.args[0])):
                out.add(show(x.args[0]))
    return out


def h01(ctx):
    for ty, name, want in ITEMS:
        eqf = ctx.methods(ty, r"PartialEq", "eq")
        dh = [i for i in ctx.p.impls if re.search(ty, i["self"]) and (i["trait"] or "").endswith("hash::Hash")]
        de = [i for i in ctx.p.impls if re.search(ty, i["self"]) and (i["trait"] or "").endswith("cmp::PartialEq")]
        if not de:
            if ctx.p.partial is None:
                ctx.missing(name + " equality")
            continue
        if not ctx.ob(name + ":own-equality", len(eqf) == 1, "equality of %s must not compare weights, so it can not be derived" % name):
            continue
        got = eq_fields(ctx, eqf[0], want, name)
        if not dh:
            ctx.missing(name + " hash")
            continue
        hf = ctx.methods(ty, r"hash::Hash", "hash")
        if ctx.ob(name + ":own-hash", len(hf) == 1, "the hash of %s must agree with its equality, so it can not be derived" % name):
            hs = hashed(ctx, hf[0])
            ctx.ob(name + ":hash", hs <= got and bool(hs), "equal values of %s have equal hashes: hashed %s, compared %s" % (name, sorted(hs), sorted(got)), hf[0])


# ---------------------------------------------------------------- C01
def order_table(ctx, f, who, keys, partial):
    """the order is the lexicographic one over `keys`: list of (name, term of self, term of other, reversed)"""
    v = ctx.view(f)
    ret = v.returns()
    outs = (-1, 0, 1, None) if partial else (-1, 0, 1)
    n = 0
    for vals in product(outs, repeat=len(keys)):
        def env(a, b):
            for (nm, x, y, tot), o in zip(keys, vals):
                if o is None and tot:
                    o = 0
                if a is x and b is y:
                    return o
                if a is y and b is x:
                    return o if o is None else -o
            raise Unknown("%s compared with %s" % (show(a), show(b)))
        if any(o is None and k[3] for k, o in zip(keys, vals)):
            continue
        want = 0
        for i, o in enumerate(vals):
            if i == len(vals) - 1:
                want = o
            elif o not in (0, None):
                want = o
                break
        n += 1
        try:
            got = [cmp_value(r, env) for c, r in ret if cmp_cond(c, env)]
        except Unknown as u:
            ctx.ob(who + ":keys", False, "the order compares only %s; here: %s" % (", ".join(k[0] for k in keys), u), f)
            return
        sh = ", ".join("%s %s" % (k[0], {-1: "less", 0: "equal", 1: "greater", None: "not comparable"}[o]) for k, o in zip(keys, vals))
        if not ctx.ob(who, len(set(got)) == 1 and got[0] == want, "the order is decided by %s, in this sequence; with %s the result is %s" % (
                ", then ".join(k[0] for k in keys), sh, got), f):
            return


def c01(ctx):
    a, b = mk("arg", 1, "self"), mk("arg", 2, "other")
    ty = r"^recognisable::configuration::Configuration<"
    w = ("weight", field(a, "weight"), field(b, "weight"), False)
    ln = ("length (shorter first)", length(field(b, "word")), length(field(a, "word")), True)
    wd = ("word", field(a, "word"), field(b, "word"), False)
    st = ("storage", field(a, "storage"), field(b, "storage"), False)
    f = ctx.method(ty, r"cmp::Ord$|cmp::Ord>$", "cmp")
    if f:
        order_table(ctx, f, "Configuration:cmp", [w, ln, wd, st], False)
    f = ctx.method(ty, r"cmp::PartialOrd", "partial_cmp")
    if f:
        order_table(ctx, f, "Configuration:partial_cmp", [w, ln, wd, st], True)
    if ctx.p.partial is None:
        ty = r"^recognisable::transition::Transition<"
        ins = ("instruction", field(a, "instruction"), field(b, "instruction"), False)
        f = ctx.method(ty, r"cmp::Ord$|cmp::Ord>$", "cmp")
        if f:
            order_table(ctx, f, "Transition:cmp", [w, wd, ins], False)
        f = ctx.method(ty, r"cmp::PartialOrd", "partial_cmp")
        if f:
            order_table(ctx, f, "Transition:partial_cmp", [w, wd, ins], True)
