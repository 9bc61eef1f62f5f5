"""Chomsky–Schützenberger parsing: the chart, and reading derivations off bracket words."""
from fractions import Fraction
from itertools import product
from base import *
from pat import *
from ev import subst
from view import _rebuild

def arg(f, i):
    return mk("arg", i, f["locals"][i]["name"] or "")


CSP = r"grammars::lcfrs::csparsing::"
CH = CSP + r"automaton::chart::"


# ---------------------------------------------------------------- polynomials
def poly(t):
    """a term as a polynomial over the terms that are no sums, products or quotients by numbers: {sorted atoms: factor}"""
    if is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool):
        return {(): Fraction(cval(t))} if cval(t) else {}
    if t.op == "add":
        out = {}
        for x in t.a[0]:
            out = psum(out, {(): Fraction(x)} if isinstance(x, int) else poly(x))
        return out
    if t.op == "sub":
        return psum(poly(t.a[0]), poly(t.a[1]), -1)
    if t.op == "mul":
        return pmul(poly(t.a[0]), poly(t.a[1]))
    if t.op == "bin" and t.a[0] in ("Div", "Shr") and is_const(t.a[2]) and isinstance(cval(t.a[2]), int) and cval(t.a[2]) > 0:
        d = cval(t.a[2]) if t.a[0] == "Div" else 2 ** cval(t.a[2])
        p = {k: x / d for k, x in poly(t.a[1]).items()}
        ats = sorted(set(y for k in p for y in k), key=lambda z: z.n)
        # without a remainder: a polynomial with integer values
        if all(pval(p, dict(zip(ats, xs))).denominator == 1 for xs in product(range(4), repeat=min(len(ats), 5))) and len(ats) <= 5:
            return p
        return {(t,): Fraction(1)}
    if t.op == "cast" and t.a[2] in ("usize", "u64", "u32", "u16"):
        return poly(t.a[0])
    return {(t,): Fraction(1)}


def psum(a, b, s=1):
    out = dict(a)
    for k, x in b.items():
        out[k] = out.get(k, 0) + s * x
        if out[k] == 0:
            del out[k]
    return out


def pmul(a, b):
    out = {}
    for k, x in a.items():
        for l, y in b.items():
            m = tuple(sorted(k + l, key=lambda z: z.n))
            out[m] = out.get(m, 0) + x * y
    return {k: x for k, x in out.items() if x}


def pput(p, env):
    """the polynomial with atoms replaced by polynomials"""
    out = {}
    for k, x in p.items():
        m = {(): x}
        for at in k:
            m = pmul(m, env.get(at, {(at,): Fraction(1)}))
        out = psum(out, m)
    return out


def pval(p, env):
    s = Fraction(0)
    for k, x in p.items():
        for at in k:
            if at not in env:
                return None
            x *= env[at]
        s += x
    return s


def size_at(t, env):
    """the value of a size for given arguments"""
    if t in env:
        return env[t]
    if is_const(t) and isinstance(cval(t), int):
        return cval(t)
    if t.op == "add":
        xs = [x if isinstance(x, int) else size_at(x, env) for x in t.a[0]]
        return None if None in xs else sum(xs)
    if t.op == "cast":
        return size_at(t.a[0], env)
    if t.op in ("sub", "mul", "bin"):
        x, y = size_at(t.a[-2], env), size_at(t.a[-1], env)
        if x is None or y is None:
            return None
        o = t.op if t.op != "bin" else t.a[0]
        return x - y if o == "sub" else x * y if o == "mul" else x // y if o == "Div" and y else x >> y if o == "Shr" else None
    return None


A1 = lambda t: {(t,): Fraction(1)}


# ---------------------------------------------------------------- J01
def layout(ctx):
    """the place of a span in the chart as a polynomial of i, j, n"""
    f = ctx.fn(CH + "index$")
    if not f:
        return None
    ps = paths(ctx.view(f))
    if len(ps) != 1:
        ctx.undecided("index", "the place of a span is not one formula", f)
        return None
    i, j, n = arg(f, 1), arg(f, 2), arg(f, 3)
    p = poly(ps[0][1])
    bad = None
    for k in range(1, 7):
        seen = {}
        for a in range(k):
            for b in range(a + 1, k + 1):
                x = pval(p, {i: a, j: b, n: k})
                if x is None:
                    ctx.undecided("index", "formula of a form that is not known: " + show(ps[0][1]), f)
                    return None
                if x in seen and not bad:
                    bad = "the spans %d..%d and %d..%d share a cell" % (seen[x] + (a, b))
                if (x.denominator != 1 or x < 0 or x >= k * (k + 1) // 2) and not bad:
                    bad = "the span %d..%d of %d words lies outside of the chart" % (a, b, k)
                seen[x] = (a, b)
    ctx.ob("index", not bad, "each span has a cell of its own within the chart" + (": " + bad if bad else ""), f)
    return lambda I, J, N: pput(p, {i: I, j: J, n: N})


def writes(v, root):
    """what a method writes below its receiver: (field, index, value, event)"""
    out = []
    for x in v.events:
        if x.kind == "write" and x.extra and x.extra[0] == ("M", root):
            path = x.extra[1]
            if len(path) == 2 and isinstance(path[1], tuple) and path[1][0] == "[]":
                out.append((path[0], path[1][1], x.args[1], x))
            else:
                out.append((path[0] if path else None, None, x.args[1], x))
    return out


def j01(ctx):
    lay = layout(ctx)
    if lay is None:
        return
    ty = "^" + CH + "DenseChart<"
    f = ctx.fn(CH + "index_with_state$")
    if f:
        i, j, q, n, s = (A1(arg(f, k)) for k in range(1, 6))
        for k, r in paths(ctx.view(f)):
            ctx.ob("index_with_state", poly(r) == psum(pmul(lay(i, j, n), s), q), "the states of a span lie one after the other, after those of the spans before: " + show(r), f)
    f = ctx.method(ty, None, "new")
    N, S, B = "3", "4", "5"
    if f:
        n, s, b = arg(f, 1), arg(f, 2), arg(f, 3)
        tri = {k: x / 2 for k, x in pmul(A1(n), psum(A1(n), {(): Fraction(1)})).items()}
        for k, r in paths(ctx.view(f)):
            if r.op != "adt":
                ctx.undecided("new", "chart of a form that is not known: " + show(r), f)
                continue
            ctx.ob("new:sizes", field(r, N) is n and field(r, S) is s and poly(field(r, B)) == A1(b), "length, states and width are kept: " + show(r), f)
            ctx.ob("new:width", any(p.op == "lt" and p.a[1] is b and not x or p.op == "lt" and p.a[0] is b and x for p, x in k) or field(r, B) is b,
                   "a width that the counters cannot hold is refused", f)
            for nm, fl, want, zero in (("counters", "0", tri, lambda z: is_const(z) and cval(z) == 0), ("entries", "1", pmul(tri, A1(b)), None),
                                       ("weights", "2", pmul(tri, A1(s)), lambda z: is_call(z, "Zero::zero"))):
                l = field(r, fl)
                if not is_call(l, "from_elem"):
                    ctx.undecided("new:" + nm, "list of a form that is not known: " + show(l), f)
                    continue
                pts = [{n: x, s: y, b: z} for x in range(6) for y in range(1, 4) for z in range(1, 4)]
                got = [size_at(l.a[1][1], e) for e in pts]
                if None in got:
                    ctx.undecided("new:" + nm, "size of a form that is not known: " + show(l), f)
                    continue
                less = any(x < pval(want, e) for x, e in zip(got, pts))
                ctx.ob("new:" + nm, not less and (zero is None or zero(l.a[1][0])), "there is room for every span, and it is empty: " + show(l), f)
    f = ctx.method(ty, None, "add_entry")
    if f:
        me, i, j, q, w = (arg(f, k) for k in range(1, 6))
        cell = lay(A1(i), A1(j), A1(field(me, N)))
        v = ctx.view(f)
        ws = writes(v, me)
        cnt = None

        def counter(t):
            return t.op == "idx" and t.a[0] is field(me, "0") and poly(t.a[1]) == cell
        names = {"0": "counter", "1": "entry", "2": "weight"}
        for fl in "012":
            mine = [x for x in ws if x[0] == fl]
            if any(x[1] is None for x in mine):
                ctx.undecided("add:" + names[fl], "a write of a form that is not known", f)
                continue
            ctx.ob("add:" + names[fl] + ":once", len(mine) == 1, "an added constituent changes one %s of the chart: %d writes" % (names[fl], len(mine)), f)
            for _, at, val, ev in mine:
                at, val = v.rw(at), v.rw(val)
                p = poly(at)
                if fl == "0":
                    up = val.a[0].a[1] if val.op == "eff" and is_call(val.a[0], "add_assign") else None
                    good = p == cell and (up is not None and counter(up[0]) and is_const(up[1]) and cval(up[1]) == 1 or
                                          any(x == 1 and psum(poly(val), {k: -x}) == {(): 1} and len(k) == 1 and counter(k[0]) for k, x in poly(val).items()))
                    ctx.ob("add:counter", good, "the counter of the span grows by one: [%s] = %s" % (show(at), show(val)), f)
                elif fl == "1":
                    rest = psum(p, pmul(cell, A1(field(me, B))), -1)
                    good = len(rest) == 1 and all(len(k) == 1 and counter(k[0]) and x == 1 for k, x in rest.items())
                    ctx.ob("add:entry", good and val.op == "tuple" and val.a == (q, w), "state and weight are stored after the entries of the span: [%s] = %s" % (show(at), show(val)), f)
                else:
                    ctx.ob("add:weight", p == psum(pmul(cell, A1(field(me, S))), A1(q)) and val is w, "the weight is stored for the span and the state: [%s] = %s" % (show(at), show(val)), f)
                conds = [frozenset((v.rw(a), b) for a, b in k) for k in ev.cond]
                room = all(any(a.op == "lt" and b and counter(a.a[0]) and a.a[1] is field(me, B) for a, b in k) for k in conds)
                if not room and any(a.op not in ("lt", "eq") for k in conds for a, b in k):
                    ctx.undecided("add:room", "a condition of a form that is not known: " + showc(conds), f)
                else:
                    ctx.ob("add:room", room and all(len(k) == 1 for k in conds), "the constituent is stored exactly if the span has room for it: " + showc(conds), f)
    f = ctx.method(ty, None, "get_weight")
    if f:
        me, i, j, q = (arg(f, k) for k in range(1, 5))
        want = psum(pmul(lay(A1(i), A1(j), A1(field(me, N))), A1(field(me, S))), A1(q))
        stored = lambda t: t.op == "idx" and t.a[0] is field(me, "2") and poly(t.a[1]) == want
        for k, r in paths(ctx.view(f)):
            zero = [b for p, b in k if p.op == "eq" and any(is_call(x, "Zero::zero") for x in p.a) and any(stored(x) for x in p.a)] + \
                   [b for p, b in k if is_call(p, "Zero::is_zero") and stored(p.a[1][0])]
            if is_some(r):
                ctx.ob("weight:some", stored(payload(r)) and zero == [False], "the weight is the one that was stored for the span and the state: " + show(r), f)
            elif is_none(r):
                ctx.ob("weight:none", zero == [True], "there is no weight exactly where none was stored: " + show(r), f)
            else:
                ctx.undecided("weight", "a result of a form that is not known: " + show(r), f)
    f = ctx.method(ty, None, "iterate_nont")
    if f:
        me, i, j = (arg(f, k) for k in range(1, 4))
        cell = lay(A1(i), A1(j), A1(field(me, N)))
        base = pmul(cell, A1(field(me, B)))

        def count(p):
            return len(p) == 1 and all(len(k) == 1 and x == 1 and k[0].op == "idx" and k[0].a[0] is field(me, "0") and poly(k[0].a[1]) == cell for k, x in p.items())
        for k, r in paths(ctx.view(f)):
            if r.op == "slice" and r.a[0] is field(me, "1"):
                lo, hi = poly(r.a[1]), poly(r.a[2])
            elif r.op == "itd" and r.a[0] == "take" and r.a[1].op == "itd" and r.a[1].a[0] == "skip" and r.a[1].a[1] is field(me, "1"):
                lo = poly(r.a[1].a[2])
                hi = psum(lo, poly(r.a[2]))
            else:
                ctx.undecided("iterate", "an iterator of a form that is not known: " + show(r), f)
                continue
            ctx.ob("iterate", lo == base and count(psum(hi, base, -1)), "exactly the constituents stored for the span are listed: " + show(r), f)
    f = ctx.method(ty, None, "get_meta")
    if f:
        for k, r in paths(ctx.view(f)):
            ctx.ob("meta", r.op == "tuple" and len(r.a) == 3 and all(poly(x) == A1(field(arg(f, 1), y)) for x, y in zip(r.a, (N, S, B))), "length, states, width: " + show(r), f)


# ---------------------------------------------------------------- J02
def j02(ctx):
    f = ctx.method(CSP + "CSRepresentation<", None, "toderiv")
    if not f:
        return
    me, word = arg(f, 1), arg(f, 2)
    v = ctx.view(f)
    X = IX(word, I("i"))
    comp = F(F(X, "Open:0"), "Component:0")
    OPENC = [IS(X, "Open"), IS(F(X, "Open:0"), "Component")]
    # where we are: the successor numbers of the open variables
    where = None
    for t, l in v.loops.items():
        i0 = v.rw(l["init"]) if l["init"] is not None else UNIT
        if not is_call(i0, "Vec::new", "Vec::with_capacity"):
            continue
        acts = []
        for b in l["back"]:
            b = v.rw(b)
            for c, x in (b.a[0] if b.op == "phi" else ((frozenset([frozenset()]), b),)):
                acts.append((c, x))
        if any(x.op == "eff" and is_call(x.a[0], "Vec::push") for c, x in acts):
            where = (t, acts)
    if where is None:
        ctx.undecided("path", "the list of open variables is not found", f)
        return
    pos, acts = where
    pushes, pops = [], []
    for c, x in acts:
        if x is pos:
            continue
        if x.op == "eff" and is_call(x.a[0], "Vec::push") and x.a[0].a[1][0] is pos:
            pushes.append((c, x.a[0].a[1][1]))
        elif x.op == "eff" and is_call(x.a[0], "Vec::pop") and x.a[0].a[1][0] is pos:
            pops.append(c)
        elif x.op == "eff" and is_call(x.a[0], "Vec::truncate"):
            n = poly(x.a[0].a[1][1])
            if n == {(length(pos),): 1, (): -1}:
                pops.append(c)
            else:
                ctx.undecided("path", "a change of a form that is not known: " + show(x), f)
                return
        else:
            ctx.undecided("path", "a change of a form that is not known: " + show(x), f)
            return

    def isin(k, kind):
        want = {("is", kind), ("is", "Variable")}
        got = set(("is", p.a[1]) for p, b in k if b and p.op == "is")
        return want <= got and all(p.op in ("is", "more") for p, b in k)
    ctx.ob("path:push", bool(pushes) and all(isin(k, "Open") for c, x in pushes for k in c) and
           all(first(F(F(X, "Open:0"), "Variable:1"), x) is not None for c, x in pushes),
           "an opening variable bracket leads to its successor: " + ", ".join(show(x) for c, x in pushes), f)
    ctx.ob("path:pop", bool(pops) and all(isin(k, "Close") for c in pops for k in c), "exactly a closing variable bracket leads back", f)
    # what is recorded
    recs = [x for x in v.events if x.kind == "call" and (x.path.endswith("Entry::or_insert") or x.path.endswith("Map::insert"))]
    recs = [x for x in recs if x.path.endswith("Entry::or_insert") and is_call(x.args[0], "entry") or x.path.endswith("Map::insert")]
    if not recs:
        ctx.undecided("record", "the table of rules is not found", f)
        return
    for x in recs:
        m, key, val = (x.args[0].a[1] + (x.args[1],)) if x.path.endswith("or_insert") else x.args[:3]
        only = all(all(p.op in ("is", "more") and (b or p.op == "is") for p, b in k) and {"Open", "Component"} <= set(p.a[1] for p, b in k if b and p.op == "is") for k in x.cond)
        ctx.ob("record", only and key is pos and first(comp, val) is not None, "the rule of an opening component bracket is recorded for the position: %s ↦ %s" % (show(key), show(val)), f)

    def known(t):
        """the rule recorded for the position before"""
        t = t.a[0] if t.op == "f" and t.a[1] == "0" and len(t.a) > 2 and t.a[2] == "Some" else t
        if t.op == "call" and t.a[0].split("::")[-1] in ("or_insert",):
            return is_call(t.a[1][0], "entry") and t.a[1][0].a[1][1] is pos
        return t.op == "call" and t.a[0].split("::")[-1] in ("get", "insert") and t.a[1][1] is pos or t.op == "idx" and t.a[1] is pos
    some = none = 0
    for k, r in paths(v):
        if is_none(r):
            none += 1
            eqs = [p for p, b in k if p.op == "eq" and not b and any(first(comp, y) is not None for y in p.a) and any(known(y) for y in p.a)]
            if not eqs and any(p.op not in ("is", "more", "eq") for p, b in k):
                ctx.undecided("reject", "a word is refused for reasons that are not known: " + showc([k]), f)
                continue
            ctx.ob("reject", bool(eqs) and all(p in eqs or p.op in ("is", "more") for p, b in k), "a word is refused exactly where two rules meet at one position: " + showc([k]), f)
        elif is_some(r):
            some += 1
            t = field(payload(r), "map") if is_adt(payload(r), "GornTree") else payload(r)
            ok = None
            if t.op == "coll" and t.a[0].op == "tuple" and len(t.a[0].a) == 2:
                a, b = t.a[0].a
                e = first(F(IX(V("m"), I("k")), "0"), a)
                ok = e is not None and first(IX(field(me, "rules"), F(IX(V("m"), I("k")), "1")), b, e) is not None and \
                    all(len(c) == 1 and all(p.op == "more" and x for p, x in c) for c in t.a[1])
            if ok is None:
                ctx.undecided("tree", "a tree of a form that is not known: " + show(r), f)
            else:
                ctx.ob("tree", ok, "each position has the rule that was recorded for it: " + show(t.a[0]), f)
        else:
            ctx.undecided("result", "a result of a form that is not known: " + show(r), f)
    ctx.ob("reject:there", none > 0, "a word with two rules at one position is refused", f)


# ---------------------------------------------------------------- J03
_plain = {}


def plainly(t):
    """without casts, and with states for their numbers"""
    r = _plain.get(t)
    if r is None:
        if t.op == "cast":
            r = plainly(t.a[0])
        elif t.op == "call" and t.a[0].endswith("::integerise") and len(t.a[1]) == 2:
            r = mk("st", plainly(t.a[1][1]))
        elif t.op in ("coll", "colls", "loop"):
            r = t
        elif t.op == "len" and t.a[0].op == "eff" and is_call(t.a[0].a[0], "Vec::push") and t.a[0].a[1] == 0:
            r = add(plainly(length(t.a[0].a[0].a[1][0])), const(1))
        else:
            r = _rebuild(t, plainly, lambda c: frozenset(frozenset((plainly(p), b) for p, b in k) for k in c))
        _plain[t] = r
    return r


def picks(t):
    """the alternatives of a term with their conditions"""
    return list(t.a[0]) if t.op == "phi" else [(frozenset([frozenset()]), t)]


def j03(ctx):
    f = ctx.method(CSP + "automaton::Automaton<", None, "from_grammar")
    if not f:
        return
    v = ctx.view(f, noinline=lambda g: g["nname"].split("::")[-1] in ("push_to", "into_vec_with_size"))
    R = IX(arg(f, 1), I("r"))
    e0 = None
    marks, ups, terms = [], [], []
    for x in v.events:
        if x.kind != "call":
            continue
        c = frozenset(frozenset((plainly(p), b) for p, b in k) for k in x.cond)
        last = x.path.split("::")[-1]
        if last == "push_to" and len(x.args) == 3:
            ups.append((x.args[1], plainly(x.args[1]), plainly(x.args[2]), c))
        elif last == "push" and x.path.endswith("Vec::push"):
            val = plainly(x.args[1])
            if val.op == "tuple" and len(val.a) == 3 and all(is_adt(y, n) for z in val.a for _, y in picks(z) for n in ["BracketContent"]):
                marks.append((plainly(length(x.args[0])), length(x.args[0]), val.a, c))
            elif val.op == "tuple" and len(val.a) == 2:
                terms.append((None, None, val, c))
        elif last == "or_insert" and is_call(x.args[0], "entry"):
            terms.append((None, plainly(x.args[0].a[1][1]), None, c))
    if len(marks) < 2:
        ctx.undecided("brackets", "the brackets of the rules are not recorded in a form that is known", f)
        return
    running = None
    offset = {}
    for ident, raw, (outer, left, right), c in marks:
        if len(c) == 0:
            continue
        mine = [u for u in ups if u[3] == c and u[2].op == "tuple" and u[2].a[0] in (ident, raw)]
        rest = [u for u in ups if u[3] == c and u not in mine]
        key = [t[1] for t in terms if t[1] is not None and t[3] == c]
        tp = [t[2] for t in terms if t[2] is not None and t[3] == c and t[2].a[0] in (ident, raw)]
        terminal = is_adt(left, "BracketContent") and left.a[1] == "Terminal" if len(left.a) > 1 else False
        name = "terminal" if terminal else "chain" if right.op == "adt" and right.a[1] == "Ignore" else "first" if left.op == "adt" and left.a[1] != "Ignore" else "further"
        if name in offset:
            ctx.undecided(name, "rules of the same kind are made in two places", f)
            return
        if rest:
            ds = [psum(poly(u[2].a[0]), poly(ident), -1) if u[2].op == "tuple" else {None: 1} for u in rest]
            if any(len(d) == 1 and () in d for d in ds):
                ctx.ob(name + ":number", False, "what is stored for a rule has the number of its brackets: " + "; ".join(show(u[2]) for u in rest), f)
            else:
                ctx.undecided(name + ":number", "numbers of a form that is not known: " + "; ".join(show(u[2]) for u in rest), f)
            continue
        if terminal and len(mine) == 1 and len(tp) == 1 and len(key) == 1:
            bu, td = (key[0], tp[0]), (mine[0][1], mine[0][2])
        elif not terminal and len(mine) == 2:
            b = [u for u in mine if u[2].a[-1].op == "tuple"]
            t = [u for u in mine if u[2].a[-1].op != "tuple"]
            if len(b) != 1 or len(t) != 1:
                ctx.undecided(name, "entries of a form that is not known: " + "; ".join(show(u[2]) for u in mine), f)
                continue
            bu, td = (b[0][1], b[0][2]), (t[0][1], t[0][2])
        else:
            n = len(mine) + len(tp)
            if n and not any(u[2].op != "tuple" for u in ups):
                ctx.ob(name + ":twice", False, "each rule is stored once for each direction: %d entries" % n, f)
            else:
                ctx.undecided(name, "the entries for the two directions are not found", f)
            continue
        w, p = bu[1].a[-1].a if bu[1].a[-1].op == "tuple" and len(bu[1].a[-1].a) == 2 else (None, None)
        if w is None:
            ctx.undecided(name, "entry of a form that is not known: " + show(bu[1]), f)
            continue
        kids = ([] if terminal else [bu[0]]) + list(bu[1].a[1:-1])
        ctx.ob(name + ":twins", td[0] is p and td[1].a[1:] == tuple(kids) + (w,),
               "both directions store the same rule: %s, %s and %s, %s" % (show(bu[0]), show(bu[1]), show(td[0]), show(td[1])), f)
        # the component the rule belongs to
        comps = set()
        for cc, x in picks(p):
            for y in walk(x):
                if is_adt(y, "State") and y.a[1] == "Non":
                    m = first(F(F(R, "1"), "head"), field(y, "0"))
                    comps.add((field(y, "1"), m is not None))
        if len(comps) != 1 or not all(b for a, b in comps):
            ctx.ob(name + ":head", False, "the left-hand side is the rule's nonterminal with the component: " + show(p), f)
            continue
        k = list(comps)[0][0]
        rule = [y for y in walk(p) if y.op == "idx" and first(R, y) is not None]
        r = rule[0] if rule else None
        if r is None:
            continue
        comp = mk("idx", field(field(field(r, "1"), "composition"), "composition"), k)
        ctx.ob(name + ":component", has(mk("and", *[q for kk in c for q, b in kk]) if c else UNIT, lambda y: y is comp), "the rule is one of the component its state names: " + show(comp), f)
        # weights
        fact = first(CALL("Factorizable::factorize", F(F(R, "1"), "weight"), LEN(ANY)), w.a[0]) if w.op == "idx" else None
        if name == "further":
            ctx.ob(name + ":weight", is_call(w, "One::one"), "the weight of a component is counted once: " + show(w), f)
        elif w.op == "idx" or is_call(w, "One::one"):
            ctx.ob(name + ":weight", fact is not None and w.a[1] is k, "the rule has the factor of its component: " + show(w), f)
        else:
            ctx.undecided(name + ":weight", "weight of a form that is not known: " + show(w), f)

        def var_at(kid, br, what):
            """the position in the component of the variable a state and a bracket stand for"""
            if kid.op == "st" and is_adt(kid.a[0], "State") and kid.a[0].a[1] == "Non" and br.op == "adt" and br.a[1] == "Variable":
                s0, s1 = field(kid.a[0], "0"), field(kid.a[0], "1")
                ys = set(y.a[0] for y in walk(s1) if y.op == "f" and y.a[0].op == "idx" and y.a[0].a[0] is comp)
                good = False
                at = None
                if len(ys) == 1:
                    y = ys.pop()
                    at = y.a[1]
                    i, j = field(y, "0", "Var"), field(y, "1", "Var")
                    good = s1 is j and s0.op == "idx" and s0.a[1] is i and s0.a[0] is field(field(r, "1"), "tail") and \
                        tuple(x for _, x in br.a[2]) == (field(r, "0"), i, j)
                ctx.ob(name + ":" + what, good, "state and bracket stand for the same variable of the component: %s, %s" % (show(kid), show(br)), f)
                return at
            return None
        ends = None
        if terminal:
            ats = [y for y in walk(bu[0]) if y.op == "idx" and y.a[0] is comp]
            ctx.ob("terminal:symbol", len(set(ats)) == 1 and bu[0] is field(ats[0], "0", "T"), "a terminal rule is stored for its terminal: " + show(bu[0]), f)
            ends = ats[0].a[1] if ats else None
        elif name == "further":
            running = (kids[0], p)
            fcond = c
            ctx.ob("further:left", left.op == "adt" and left.a[1] == "Ignore" and kids[0].op == "loop", "the left state is the one of the rule before, without a bracket: " + show(kids[0]), f)
            ends = var_at(kids[1], right, "right")
        else:
            ends = var_at(kids[0], left, "left")
            if name == "first":
                a = ends
                ends = var_at(kids[1], right, "right")
                if a is not None and ends is not None:
                    ctx.ob("first:order", psum(poly(ends), poly(a), -1) == {(): 1} and poly(a) == {}, "the first rule takes the first two variables in their order", f)
        # the outer bracket
        if ends is None:
            ctx.undecided(name + ":outer", "the last symbol of the rule is not found", f)
            continue
        if not ctx_outer(ctx, name, f, p, outer, comp, ends, r, k):
            continue
        offset[name] = ends
        if name == "first":
            firstp = p
            firstc = comp
    if "further" in offset and "first" in offset and running:
        t = running[0]
        l = v.loops.get(t)
        lp = [l for s, l in v.loops.items() if s is t or plainly(v.rw(s)) is t]
        fst = [u for u in ups]
        if not lp:
            ctx.undecided("further:state", "the state that is passed on is not found", f)
        else:
            backs = [plainly(v.rw(b)) for b in lp[0]["back"]]
            i0 = plainly(v.rw(lp[0]["init"])) if lp[0]["init"] is not None else None
            ctx.ob("further:init", i0 is firstp, "the first of the further rules starts in the state of the first rule: " + (show(i0) if i0 is not None else ""), f)
            at = [y for y in walk(offset["further"]) if y.op == "idx" and is_call(y.a[0], "RangeInclusive::new")]
            if len(at) == 1:
                lo, hi = at[0].a[0].a[1]
                d = psum(poly(offset["further"]), A1(at[0]), -1)
                ctx.ob("further:all", psum(d, poly(lo)) == {(): 2} and psum(d, poly(hi)) == {(length(firstc),): 1, (): -1},
                       "the further rules take the variables from the third to the last: %s to %s" % (show(lo), show(hi)), f)
            else:
                at = [y for y in poly(offset["further"]) if len(y) == 1 and y[0].op == "pos"]
                bounds = set()
                for kk in fcond:
                    for q, b in kk:
                        if b and at and q.op == "more" and q.a[1] is at[0][0] and is_adt(q.a[0], "Range"):
                            bounds.add(tuple(sorted(psum(poly(field(q.a[0], "end")), poly(field(q.a[0], "start")), -1).items(), key=str)))
                        elif b and at and q.op == "lt" and q.a[0] is at[0][0]:
                            bounds.add(tuple(sorted(poly(q.a[1]).items(), key=str)))
                        elif b and at and q.op == "more" and q.a[0] is firstc:
                            d = psum(poly(q.a[1]), A1(at[0][0]), -1)
                            bounds.add(tuple(sorted(psum({(length(firstc),): Fraction(1)}, d, -1).items(), key=str)))
                want = tuple(sorted({(length(firstc),): Fraction(1), (): Fraction(-2)}.items(), key=str))
                if len(bounds) == 1:
                    ctx.ob("further:all", bounds == {want} and psum(poly(offset["further"]), A1(at[0][0]), -1) == {(): 2},
                           "the further rules take the variables from the third to the last", f)
                else:
                    ctx.undecided("further:all", "the bounds of the further variables are not found", f)
            ctx.ob("further:state", all(b is running[1] for b in backs), "each rule starts in the state the rule before leads to: " + "; ".join(show(b) for b in backs), f)
    # the mirrored index
    for raw, key, val, c in ups:
        if val.op == "tuple" and len(val.a) == 3 and val.a[0].op == "pos" and key.op == "f":
            y = key.a[0]
            good = key is field(y, "1") and val.a[1:] == (field(field(y, "2"), "0"), field(field(y, "2"), "1")) and \
                y.op == "idx" and y.a[0].op == "idx" and y.a[0].a[1] is val.a[0]
            ctx.ob("mirrored", good, "each binary rule is stored by its right state with its left one: %s ↦ %s" % (show(key), show(val)), f)
    for kk, r in paths(v):
        if is_adt(r, "Automaton"):
            i = plainly(field(r, "7"))
            ctx.ob("initial", i.op == "st" and is_adt(i.a[0], "State") and i.a[0].a[1] == "Non" and field(i.a[0], "0") is arg(f, 2) and
                   is_const(field(i.a[0], "1")) and cval(field(i.a[0], "1")) == 0, "the initial state is the first component of the initial nonterminal: " + show(i), f)


def ctx_outer(ctx, name, f, p, outer, comp, ends, r, k):
    """the left-hand side is the component's exactly with the last symbol, and carries the component's bracket exactly then"""
    end = psum(poly(ends), {(): Fraction(1)})
    ps, os = picks(p), picks(outer)
    seen = {}
    for cs, x in ps:
        if x.op != "st" or not is_adt(x.a[0], "State"):
            ctx.undecided(name + ":outer", "state of a form that is not known: " + show(x), f)
            return False
        non = x.a[0].a[1] == "Non"
        if not non:
            fs = [y for _, y in x.a[0].a[2]]
            d = psum(poly(fs[2]), poly(ends), -1)
            ctx.ob(name + ":unique", fs[0] is field(r, "0") and fs[1] is k and d == {(): -1}, "a state within a component is its own: rule, component and place: " + show(x), f)
        if name in ("terminal", "chain"):
            ctx.ob(name + ":outer", non and len(ps) == 1, "the rule makes up the whole component: " + show(x), f)
        else:
            lits = [[b for q, b in c if q.op == "eq" and any(y.op == "len" and y.a[0] is comp for y in q.a) and
                     any(poly(y) == end for y in q.a)] for c in cs]
            if any(not l for l in lits) and any(q.op not in ("eq",) for c in cs for q, b in c):
                ctx.undecided(name + ":outer", "a condition of a form that is not known: " + showc(cs), f)
            else:
                ctx.ob(name + ":last", all(l and l[0] == non for l in lits), "the component's state is reached exactly with its last variable: %s if %s" % (show(x), showc(cs)), f)
        seen[non] = cs
    want = {True: "Component", False: "Ignore"}
    for cs, x in os:
        kind = [n for n, w in want.items() if x.a[1] == w]
        good = bool(kind) and kind[0] in seen and (len(ps) == 1 or seen[kind[0]] == cs)
        if good and kind[0]:
            good = tuple(y for _, y in x.a[2]) == (field(r, "0"), k)
        ctx.ob(name + ":bracket", good, "the outer bracket is the component's exactly where the state is: %s if %s" % (show(x), showc(cs)), f)
    return True


# ---------------------------------------------------------------- J04
def innermost(t):
    """a list that is made from another one, element by element, says no more than the other one"""
    while t.op == "coll" and t.a[0].op == "idx" and t.a[0].a[0].op in ("coll", "arg", "f") and all(p.op == "more" and b for k in t.a[1] for p, b in k) and len(t.a[1]) == 1:
        t = t.a[0].a[0]
    return t


def steps_of(t, c):
    """the number of steps from counter c to t, as a function of the length of a component"""
    lens = [x for x in walk(t) if x.op == "len"]
    if len(set(x.n for x in lens)) > 1:
        return None
    out = []
    for n in range(1, 7):
        e = {c: 100}
        for x in lens:
            e[x] = n
        out.append(value_at(t, e))
    return None if None in out else [x - 100 for x in out]


def value_at(t, env):
    if t in env:
        return env[t]
    if is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool):
        return cval(t)
    if t.op == "cast":
        return value_at(t.a[0], env)
    if t.op == "add":
        xs = [x if isinstance(x, int) else value_at(x, env) for x in t.a[0]]
        return None if None in xs else sum(xs)
    if t.op in ("sub", "mul", "max", "min"):
        xs = [value_at(x, env) for x in t.a]
        if None in xs:
            return None
        return {"sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "max": max, "min": min}[t.op](*xs)
    if t.op == "phi":
        for k, x in t.a[0]:
            for conj in k:
                vs = [truth_at(p, env) for p, _ in conj]
                if None in vs:
                    return None
                if all(w == b for w, (_, b) in zip(vs, conj)):
                    return value_at(x, env)
    return None


def truth_at(p, env):
    if p.op in ("eq", "lt") and len(p.a) == 2:
        x, y = value_at(p.a[0], env), value_at(p.a[1], env)
        if x is None or y is None:
            return None
        return x == y if p.op == "eq" else x < y
    return None


def j04(ctx):
    ty = "^" + CSP + "automaton::rulemask::RuleMaskBuilder<"
    f = ctx.method(ty, None, "new")
    if f:
        j04_new(ctx, f)
    f = ctx.method(ty, None, "build")
    if f:
        j04_build(ctx, f)


def j04_new(ctx, f):
    v = ctx.view(f, noinline=lambda g: g["nname"].split("::")[-1] in ("push_to", "into_vec_with_size"))
    R = IX(arg(f, 1), I("r"))
    state = lambda t: plainly(t)
    seen = {"bottom": 0, "rules": 0}
    counters = []
    for x in v.events:
        if x.kind != "call" or x.path.split("::")[-1] != "push_to" or len(x.args) != 3:
            continue
        key, val = v.rw(x.args[1]), v.rw(x.args[2])
        if val.op != "tuple" or len(val.a) != 2:
            ctx.undecided("entries", "an entry of a form that is not known: " + show(val), f)
            continue
        one, two = val.a
        conds = [dict((v.rw(p), b) for p, b in k) for k in x.cond]
        if plainly(two).op == "st":
            # a successor, with the others, leads to the left-hand side
            seen["bottom"] += 1
            e = first(TUP(V("l"), V("s")), val)
            h = first(F(R, "head"), plainly(two).a[0])
            ctx.ob("bottom-up:head", h is not None, "what becomes productive is the left-hand side: " + show(two), f)
            tails = lambda t: t.op == "coll" and plainly(t.a[0]).op == "st" and first(IX(F(R, "tail"), V("i")), plainly(t.a[0]).a[0]) is not None
            if tails(innermost(one)):
                ctx.ob("bottom-up:others", False, "a successor stands next to the others of its rule, and not next to itself: " + show(one), f)
                continue
            if not (is_call(key, "Vec::remove") or is_call(key, "Vec::swap_remove")) or one.op != "eff" or one.a[0] is not key:
                ctx.undecided("bottom-up:others", "successors of a form that is not known: " + show(key) + " with " + show(one), f)
                continue
            l, i = key.a[1]
            inner = innermost(l)
            el = plainly(inner.a[0]) if inner.op == "coll" else None
            good = el is not None and el.op == "st" and first(IX(F(R, "tail"), V("i")), el.a[0]) is not None and all(p.op == "more" and b for k in inner.a[1] for p, b in k)
            rng = [p for c in conds for p, b in c.items() if b and (p.op == "more" and contains(i, p.a[1]) or p.op == "lt" and p.a[0] is i)]
            full = [p for p in rng if p.op == "lt" and p.a[1] is length(inner) or p.op == "more" and p.a[1] is i and is_adt(p.a[0], "Range") and is_const(field(p.a[0], "start")) and cval(field(p.a[0], "start")) == 0 and length(inner) is v.rw(field(p.a[0], "end")) or
                    p.op == "more" and p.a[1] is i and (p.a[0] is inner or innermost(p.a[0]) is inner)]
            if el is None or not rng:
                ctx.undecided("bottom-up:others", "successors of a form that is not known: " + show(l), f)
            else:
                ctx.ob("bottom-up:others", good and len(full) == len(conds), "every successor stands once for itself, and next to all others of its rule", f)
        else:
            seen["rules"] += 1
            h = first(F(R, "head"), plainly(key).a[0]) if plainly(key).op == "st" else None
            if plainly(key).op == "st":
                ctx.ob("rules:head", h is not None, "a rule is found by its left-hand side: " + show(key), f)
            elif plainly(key).op == "idx" and innermost(plainly(key).a[0]).op == "coll" and plainly(innermost(plainly(key).a[0]).a[0]).op == "st":
                ctx.ob("rules:head", False, "a rule is found by its left-hand side: " + show(key), f)
            terminal = any(p.op == "is" and b and p.a[1] == "T" for c in conds for p, b in c.items())
            tag = "terminal" if terminal else "others"
            if one.op == "array":
                c = one.a[0] if len(one.a) == 1 else None
                if isinstance(c, tuple):
                    c = c[0] if len(c) == 1 else None
                if c is None or c.op != "loop":
                    ctx.undecided("rules:%s:numbers" % tag, "numbers of a form that is not known: " + show(one), f)
                    continue
                counters.append((c, conds))
                ctx.ob("rules:%s:numbers" % tag, terminal, "a single number is for rules of a single terminal: " + show(one), f)
                emp = is_call(two, "Vec::new") or two.op == "array" and not two.a[0] or two.op == "coll" and plainly(innermost(two).a[0]).op == "st"
                ctx.ob("rules:terminal:successors", emp, "a terminal rule needs no other nonterminal: " + show(two), f)
                continue
            one = innermost(one)
            rs = [p.a[0] for k in one.a[1] for p, b in k if p.op == "more" and b and is_adt(p.a[0], "Range")] if one.op == "coll" else []
            if one.op == "coll" and len(rs) == 1:
                lo, hi = field(rs[0], "start"), field(rs[0], "end")
                base = [t for t in walk(hi) if t.op == "loop"]
                it = [t for t in walk(one.a[0]) if t.op == "bound"]
                c = base[0] if len(set(b.n for b in base)) == 1 else None
                st, en = (steps_of(lo, c), steps_of(hi, c)) if c is not None else (None, None)
                if st is None or en is None:
                    ctx.undecided("rules:others:numbers", "numbers of a form that is not known: " + show(one), f)
                else:
                    ctx.ob("rules:others:numbers", st == [0] * 6 and en == [1, 1, 2, 3, 4, 5],
                           "a component has as many numbers as there are binarised rules for it, from the counter on: " + show(rs[0]), f)
                    nxt = [steps_of(b, t) for t, l in v.loops.items() if l["init"] is not None and t is not c and v.rw(l["init"]) is c for b in l["back"] if contains(b, t)]
                    if not nxt or None in nxt:
                        ctx.undecided("rules:others:counter", "a counter of a form that is not known", f)
                    else:
                        ctx.ob("rules:others:counter", all(s == en for s in nxt), "the counter goes on where the numbers of the component end", f)
                other = [p for k in one.a[1] for p, b in k if p.op != "more" or not b]
                ctx.ob("rules:others:all", not other, "each component has its numbers: " + showc(one.a[1]), f)
            else:
                ctx.undecided("rules:others:numbers", "numbers of a form that is not known: " + show(one), f)
            two = innermost(two)
            el = plainly(two.a[0]) if two.op == "coll" else None
            if el is None or el.op != "st":
                ctx.undecided("rules:others:successors", "successors of a form that is not known: " + show(two), f)
            else:
                ctx.ob("rules:others:successors", first(IX(F(R, "tail"), V("i")), el.a[0]) is not None, "the successors of a rule are those of the grammar's: " + show(el), f)
    for c, conds in counters:
        for b in v.loops[c]["back"] if c in v.loops else []:
            for k, x in picks(v.rw(b)):
                # the alternatives for a rule of a single terminal
                if any(not any(d.get(p, y) != y or p.op == "is" and y and any(q.op == "is" and z and q.a[0] is p.a[0] and q.a[1] != p.a[1] for q, z in d.items())
                               for d in conds for p, y in conj) for conj in k):
                    s = steps_of(x, c)
                    if s is not None:
                        ctx.ob("rules:terminal:counter", s == [1] * 6, "a rule of a single terminal takes one number: " + show(x), f)
    if not seen["bottom"] or not seen["rules"]:
        ctx.undecided("entries", "the rules are not recorded in a form that is known", f)
    for k, r in paths(v):
        t = field(r, "terminal") if is_adt(r, "RuleMaskBuilder") else None
        if t is None or t.op != "coll":
            ctx.undecided("terminals", "terminals of a form that is not known", f)
            continue
        e = t.a[0]
        good = e.op == "tuple" and \
            plainly(e.a[1]).op == "st" and first(F(R, "head"), plainly(e.a[1]).a[0]) is not None
        ctx.ob("terminals", good, "a terminal makes the left-hand side of its rule productive: " + show(e), f)
        i = field(r, "initial_nt")
        if i is not None:
            ctx.ob("initial", any(x is arg(f, 2) for x in walk(i)), "the root is the grammar's initial nonterminal: " + show(i), f)


def j04_build(ctx, f):
    me, word = arg(f, 1), arg(f, 2)
    v = ctx.view(f)

    def root(t):
        n = 0
        while t in v.loops and v.loops[t]["init"] is not None and n < 50:
            t, n = v.rw(v.loops[t]["init"]), n + 1
        return t
    td, bu, tm = field(me, "td_inner"), field(me, "inner"), field(me, "terminal")
    fresh = lambda t: is_call(root(t), "from_elem") and cval(root(t).a[1][0]) is False
    for k, r in paths(v):
        if not is_call(root(r), "from_elem"):
            ctx.undecided("result", "a result of a form that is not known: " + show(r), f)
            return
    mask = root(r)
    T = lambda nt, rule: IX(IX(td, nt), rule)
    done = {"mask": 0, "down": 0, "up": 0, "words": 0}

    def guards(tag, cond, e, text):
        """the conditions under which something of a rule is let through"""
        nt, rule = e["nt"], e["r"]
        for k in cond:
            prod = [p.a[0].a[0] for p, b in k if p.op == "all" and p.a[0].op == "idx"]
            for p, b in k:
                p = v.rw(p)
                if p.op == "more" or p.op == "eq" and any(x.op == "len" for x in p.a):
                    continue
                if p.op == "all":
                    g = first(IX(V("p"), IX(F(T(nt, rule), "1"), V("j"))), p.a[0])
                    ctx.ob(tag + ":successors", b and g is not None and all(q.op == "more" and y for c in p.a[1] for q, y in c) and fresh(p.a[0].a[0]),
                           "a rule waits for its own successors to be productive, and for nothing else: " + show(p), f)
                elif p.op == "idx" and fresh(p.a[0]) and p.a[1] is nt:
                    if prod:
                        ctx.ob(tag + ":visited", b == (p.a[0] in prod), "a nonterminal is left out if it was visited before or is not productive, else never: %s is %s" % (show(p), b), f)
                elif p.op in ("eq", "lt", "idx", "is"):
                    ctx.ob(tag + ":condition", False, text + ": " + show(p), f)
                else:
                    ctx.undecided(tag, "a condition of a form that is not known: " + show(p), f)
    for x in v.events:
        if x.kind != "call":
            continue
        last = x.path.split("::")[-1]
        if last in ("index", "index_mut") and len(x.args) == 2 and root(v.rw(x.args[0])) is mask:
            at = v.rw(x.args[1])
            e = first(IX(F(IX(IX(td, V("nt")), V("r")), "0"), V("n")), at)
            done["mask"] += 1
            ctx.ob("mask:which", e is not None, "what is let through are the numbers of a rule: " + show(at), f)
            if e is not None:
                guards("mask", x.cond, e, "a rule is held back for another reason")
        elif last in ("extend", "push") and len(x.args) == 2:
            val = v.rw(x.args[1])
            cs = frozenset([frozenset()])
            el = val
            if val.op == "coll":
                cs, el = val.a[1], val.a[0]
            down = first(IX(F(IX(IX(td, V("nt")), V("r")), "1"), V("j")), el)
            up = first(F(IX(IX(bu, V("nt")), V("r")), "1"), el)
            if down is not None:
                done["down"] += 1
                guards("down", list(x.cond) + list(cs), down, "a successor is not visited for another reason")
            elif up is not None:
                done["up"] += 1
                for k in cs:
                    for p, b in k:
                        p = v.rw(p)
                        if p.op == "more":
                            continue
                        if p.op == "idx" and p.a[1] is el:
                            ctx.ob("up:new", not b, "a left-hand side that is not yet productive becomes so: " + show(p), f)
                        elif p.op == "all":
                            g = first(IX(V("p"), IX(F(IX(IX(bu, up["nt"]), up["r"]), "0"), V("j"))), p.a[0])
                            ctx.ob("up:successors", b and g is not None and all(q.op == "more" and y for c in p.a[1] for q, y in c), "the left-hand side waits for the rule's other successors: " + show(p), f)
                        elif p.op in ("eq", "lt", "idx", "is"):
                            ctx.ob("up:condition", False, "a nonterminal is not productive for another reason: " + show(p), f)
                        else:
                            ctx.undecided("up", "a condition of a form that is not known: " + show(p), f)
                for k in x.cond:
                    for p, b in k:
                        p = v.rw(p)
                        if p.op == "idx" and p.a[1] is up["nt"]:
                            ctx.ob("up:visited", not b, "a nonterminal is left out only if it was visited before", f)
                        elif p.op in ("eq", "lt") and not any(y.op == "len" for y in p.a):
                            ctx.ob("up:condition", False, "a nonterminal is not productive for another reason: " + show(p), f)
            elif any(y is tm for y in walk(el)):
                done["words"] += 1
                at = [y.a[1] for y in walk(el) if y.op == "idx" and y.a[0] is word]
                full = any(p.op == "more" and p.a[0] is word and p.a[1] is at[0] and at[0].op != "add" for k in x.cond for p, b in k) if at else False
                if not at or not full and not any(p.op == "more" and contains(at[0], p.a[1]) for k in x.cond for p, b in k):
                    ctx.undecided("words", "terminals of a form that is not known: " + show(el), f)
                    continue
                g = full
                bad = [p for k in list(x.cond) + list(cs) for p, b in k if p.op not in ("more", "is") or not b]
                ctx.ob("words", g and not bad, "every nonterminal of each terminal of the word is productive: " + show(el), f)
            elif el is field(me, "initial_nt"):
                done["initial"] = 1
    for nm in ("mask", "down", "up", "words", "initial"):
        if not done.get(nm):
            ctx.undecided("build:" + nm, "this step is not done in a form that is known", f)


# ---------------------------------------------------------------- J05
_rang = {}


def ranged(t):
    """the elements of ranges as numbers, without casts"""
    r = _rang.get(t)
    if r is None:
        if t.op == "cast":
            r = ranged(t.a[0])
        elif t.op == "idx" and is_call(t.a[0], "RangeInclusive::new"):
            r = add(ranged(t.a[0].a[1][0]), t.a[1])
        else:
            r = _rebuild(t, ranged, lambda c: frozenset(frozenset((ranged(p), b) for p, b in k) for k in c))
        _rang[t] = r
    return r


def factors(t):
    if is_call(t, "Mul::mul"):
        return [x for y in t.a[1] for x in factors(y)]
    if t.op == "mul":
        return [x for y in t.a for x in factors(y)]
    return [t]


def j05(ctx):
    f = ctx.method(CSP + "automaton::Automaton<", None, "fill_chart")
    if not f:
        return
    me, word, outs, filt = arg(f, 1), arg(f, 2), arg(f, 5), arg(f, 6)
    v = ctx.view(f, noinline=lambda g: "csparsing" in g["nname"] and g["nname"].split("::")[-1] in ("iterate_nont", "get_weight", "add_entry", "get"))
    n = A1(length(word))
    adds, heaps, nexts = [], [], []
    for x in v.events:
        last = x.path.split("::")[-1]
        a = [ranged(v.rw(y)) for y in x.args]
        if last == "add_entry" and x.kind in ("call", "enter"):
            adds.append((a, x))
        elif x.kind == "call" and last in ("extend", "push") and len(a) == 2:
            heaps.append(a[1])
        if x.kind == "next" or x.kind == "call" and x.path.endswith("RangeInclusive::new"):
            nexts.append((x, a))
    if not adds:
        ctx.undecided("add", "no constituents are added in a form that is known", f)
        return
    spans = set()
    for a, x in adds:
        if len(a) != 5:
            ctx.undecided("add", "a constituent of a form that is not known", f)
            continue
        l, r, q, w = a[1:]
        spans.add((l, r))
        ok = q.op == "f" and w.op == "f" and q.a[0] is w.a[0]
        if not ok and q.op == "f" and contains(w, q.a[0]) and len(factors(w)) > 1:
            ctx.ob("add", False, "a constituent is added with its own state and weight: " + show(q) + ", " + show(w), f)
        elif ok:
            ctx.ob("add", q.a[1] == "1" and w.a[1] == "0", "a constituent is added with its own state and weight: " + show(q) + ", " + show(w), f)
        else:
            ctx.undecided("add", "a constituent of a form that is not known: " + show(q), f)
    if len(spans) != 1:
        ctx.undecided("span", "constituents are added for several spans", f)
        return
    l, r = list(spans)[0]
    L, R = poly(l), poly(r)
    width = psum(R, L, -1)
    kinds = {"terminal": 0, "binary": 0, "chain": 0}

    def conds(kind, val, rule, needs):
        for k in val.a[1] if val.op == "coll" else []:
            for p, b in k:
                if p.op == "more":
                    continue
                if p.op == "is" and p.a[1] == "Some" and is_call(p.a[0], "SxOutside::get"):
                    o = p.a[0].a[1]
                    lhs = val.a[0].a[1]
                    ctx.ob(kind + ":estimate", b and o[1] is lhs and poly(o[2]) == L and poly(o[3]) == R and poly(o[4]) == n, "the estimate is that of the constituent's own state and span: " + show(p), f)
                elif p.op == "is" and p.a[1] == "Some" and p.a[0] in needs:
                    ctx.ob(kind + ":present", b, "the constituents of which it consists are there", f)
                elif p.op == "idx" and p.a[0] is filt:
                    ctx.ob(kind + ":filter", b and p.a[1] is field(rule, "0"), "the filter is asked about the rule itself: " + show(p), f)
                elif p.op == "eq" and any(y.op in ("constitem", "const") for y in p.a) and not b:
                    continue
                elif p.op in ("eq", "lt", "idx", "is"):
                    ctx.ob(kind + ":condition", False, "a constituent is left out for another reason: " + show(p), f)
                else:
                    ctx.undecided(kind, "a condition of a form that is not known: " + show(p), f)
    for val in heaps:
        el = val.a[0] if val.op == "coll" else val
        if el.op != "tuple" or len(el.a) != 2:
            ctx.undecided("heap", "a constituent of a form that is not known: " + show(el), f)
            continue
        w, q = el.a
        fs = factors(w)
        # the rule is what the state comes from
        top = q.a[0] if q.op == "f" and q.a[1] == "1" else None
        rule = top.a[0] if top is not None and top.op == "f" else None
        if rule is None or rule.op != "idx":
            ctx.undecided("heap", "a state of a form that is not known: " + show(q), f)
            continue
        src = rule.a[0]
        if any(is_call(y, "HashMap::get") for y in walk(src)):
            kinds["terminal"] += 1
            ats = [y.a[1] for y in walk(src) if y.op == "idx" and y.a[0] is word]
            ctx.ob("terminal:where", bool(ats) and all(poly(y) == L for y in ats), "a terminal rule is for the terminal at its place: " + show(src), f)
            ctx.ob("terminal:weight", fs == [field(top, "0")], "the weight of a terminal is that of its rule: " + show(w), f)
            conds("terminal", val, rule, [])
        elif src.op == "idx" and src.a[0].op == "f" and src.a[0].a[0] is me and top.a[1] == "2":
            kinds["binary"] += 1
            left = src.a[1].a[0] if src.a[1].op == "f" and src.a[1].a[1] == "0" else None
            its = left.a[0] if left is not None and left.op == "idx" else None
            if its is None or not is_call(its, "iterate_nont"):
                ctx.undecided("binary:left", "a left constituent of a form that is not known: " + show(src), f)
                continue
            right = [y for y in fs if y.op == "f" and is_call(y.a[0], "get_weight")]
            rest = [y for y in fs if y not in right]
            ctx.ob("binary:weight", len(fs) == 3 and len(right) == 1 and set(rest) == {field(left, "1"), field(top, "0")},
                   "the weight is the product of the rule's and of both constituents': " + " * ".join(show(y) for y in fs), f)
            a1 = its.a[1]
            ctx.ob("binary:left", poly(a1[1]) == L, "the left constituent starts where the span starts: " + show(a1[1]), f)
            for y in right:
                a2 = y.a[0].a[1]
                ctx.ob("binary:adjacent", poly(a2[1]) == poly(a1[2]), "the right constituent starts where the left one ends: " + show(a2[1]) + " and " + show(a1[2]), f)
                ctx.ob("binary:right", poly(a2[2]) == R, "the right constituent ends where the span ends: " + show(a2[2]), f)
                ctx.ob("binary:rule", a2[3] is field(rule, "1"), "the right constituent is the one of the rule: " + show(a2[3]), f)
            mid = psum(poly(a1[2]), L, -1)
            rg = [p for x, p in nexts if x.kind == "next" and p and is_adt(p[0], "Range") and poly(field(p[0], "start")) == psum(L, {(): Fraction(1)})]
            at = [k for k in mid if k]
            if mid.get((), 0) and len(at) == 1 and at[0][0].op in ("pos", "bound"):
                ctx.ob("binary:first", mid[()] == 1, "the first place to part a span is after its first word: " + show(a1[2]), f)
                ends = [p for x, p in nexts if x.kind == "next" and p and is_adt(p[0], "Range") and poly(field(p[0], "start")) == psum(L, {(): Fraction(1)})]
                if ends:
                    ctx.ob("binary:last", all(poly(field(p[0], "end")) == R for p in ends), "the last place to part a span is before its last word: " + show(ends[0][0]), f)
            conds("binary", val, rule, [y.a[0] for y in right])
        elif src.op == "idx" and src.a[0].op == "f" and src.a[0].a[0] is me:
            kinds["chain"] += 1
            low = src.a[1].a[0] if src.a[1].op == "f" and src.a[1].a[1] == "1" else None
            if low is None:
                ctx.undecided("chain", "a constituent of a form that is not known: " + show(src), f)
                continue
            ctx.ob("chain:weight", len(fs) == 2 and set(fs) == {field(low, "0"), field(top, "0")}, "the weight is the product of the rule's and the constituent's: " + " * ".join(show(y) for y in fs), f)
            conds("chain", val, rule, [])
        else:
            ctx.undecided("heap", "a rule of a form that is not known: " + show(src), f)
    for k, m in kinds.items():
        if not m:
            ctx.undecided(k, "this step is not done in a form that is known", f)
    # spans from short to long, at all places
    ranges = []
    for x, a in nexts:
        if x.kind == "call" and len(a) == 2:
            ranges.append((poly(a[0]), poly(a[1])))
        elif x.kind == "next" and a and is_adt(a[0], "Range"):
            ranges.append((poly(field(a[0], "start")), psum(poly(field(a[0], "end")), {(): Fraction(1)}, -1)))
    one = {(): Fraction(1)}
    wide = set(y for k in width for y in k)
    words = set(y for k in n for y in k)

    def through(nm, var, lo, hi, mine, text):
        vs = [k for k in var if k and k[0] not in words]
        if len(vs) != 1 or var[vs[0]] != 1 or vs[0][0].op not in ("pos", "bound"):
            return ctx.undecided(nm, "spans of a form that is not known", f)
        c = psum(var, {vs[0]: Fraction(1)}, -1)
        cand = [(x, y) for x, y in ranges if mine(set(z for k in list(x) + list(y) for z in k))]
        if not cand:
            return ctx.undecided(nm, "no range of a form that is known", f)
        ctx.ob(nm, c == lo and any(psum(psum(y, x, -1), c) == hi for x, y in cand), text, f)
    through("spans:widths", width, one, n, lambda ats: ats == words, "spans of all widths are filled, the shorter ones first")
    through("spans:places", L, {}, psum(n, width, -1), lambda ats: words | wide == ats, "spans at all places are filled")


# ---------------------------------------------------------------- J06: enumerating derivations

KB = CSP + r"automaton::kbest::ChartIterator<"
QUERIES = ("get_weight", "kth", "weight", "backtraces", "read")


def j06(ctx):
    f = ctx.method(KB, None, "backtraces")
    if f:
        j06_backtraces(ctx, f)
    f = ctx.method(KB, None, "weight")
    if f:
        j06_weight(ctx, f)
    j06_steps(ctx)
    f = ctx.method(KB, None, "kth")
    if f:
        j06_kth(ctx, f)
    f = ctx.method(KB, "Iterator", "next")
    if f:
        j06_next(ctx, f)
    f = ctx.method(CSP + "automaton::Automaton<", None, "generate")
    if f:
        j06_generate(ctx, f)


def j06_backtraces(ctx, f):
    last = f["argc"]
    if last < 8:
        ctx.undecided("backtraces", "arguments of a form that is not known", f)
        return
    chart, bins, uns, nuls, filt = [arg(f, k) for k in range(1, 6)]
    i, j, q = [arg(f, k) for k in (last - 2, last - 1, last)]
    given = [arg(f, k) for k in range(6, last - 2)]
    v = ctx.view(f, noinline=lambda g: "csparsing" in g["nname"] and g["nname"].split("::")[-1] in QUERIES or "unique_heap" in g["nname"])
    one = {(): Fraction(1)}
    P = lambda t: poly(t)
    ranges = [(P(field(y, "start")), P(field(y, "end"))) for x in v.events if x.kind == "next" and x.args for y in walk(v.rw(x.args[0])) if is_adt(y, "Range")]
    seen = {}
    for x in v.events:
        if x.kind != "call" or not x.path.endswith("UniqueHeap::push") or len(x.args) != 3:
            continue
        bt, w = v.rw(x.args[1]), v.rw(x.args[2])
        if bt.op != "adt" or "IndexedBacktrace" not in bt.a[0]:
            ctx.undecided("push", "a backtrace of a form that is not known: " + show(bt), f)
            continue
        kind = bt.a[1]
        rid = field(bt, "0")
        rule = rid.a[0] if rid.op == "f" and rid.a[1] == "0" else None
        seen[kind] = seen.get(kind, 0) + 1
        if rule is None or rule.op != "idx":
            ctx.undecided(kind, "a rule of a form that is not known: " + show(rid), f)
            continue
        table = {"Binary": bins, "Unary": uns, "Nullary": nuls}[kind]
        ctx.ob(kind + ":rule", rule.a[0] is mk("idx", table, q), "the rules are those for the state: " + show(rule), f)
        cols = {"Binary": {1: 1, 3: 2, 4: 3}, "Unary": {1: 1, 2: 2}, "Nullary": {1: 1}}[kind]
        for c, k in cols.items():
            ctx.ob(kind + ":field " + str(c), field(bt, str(c)) is field(rule, str(k)), "what is noted is the rule's own: " + show(field(bt, str(c))), f)
        for c in {"Binary": (5, 6), "Unary": (3,), "Nullary": ()}[kind]:
            t = field(bt, str(c))
            if not [k for k in P(t) if k]:
                ctx.ob(kind + ":best", P(t).get((), 0) == 0, "the best derivations are taken first: " + show(t), f)
            else:
                ctx.undecided(kind + ":best", "an index of a form that is not known: " + show(t), f)
        got = lambda l, r, s: (P(l), P(r), s)
        need = []
        wt = field(rule, {"Binary": "3", "Unary": "2", "Nullary": "1"}[kind])
        if kind == "Binary":
            mid = field(bt, "2")
            need = [got(i, mid, field(rule, "1")), got(mid, j, field(rule, "2"))]
            c = [k for k in psum(P(mid), P(i), -1) if k]
            off = psum(P(mid), P(i), -1).get((), 0)
            if len(c) == 1 and c[0][0].op in ("pos", "bound") and off:
                ctx.ob("Binary:parted", off == 1, "the first place to part a span is after its first word: " + show(mid), f)
                rs = [y for y in ranges if y[0] == psum(P(i), one)]
                if rs:
                    ctx.ob("Binary:last", all(y[1] == P(j) for y in rs), "the last place to part a span is before its last word", f)
            else:
                ctx.undecided("Binary:parted", "a place of a form that is not known: " + show(mid), f)
        elif kind == "Unary":
            need = [got(i, j, field(rule, "1"))]
        fs = factors(w)
        subs = [y.a[0] for y in fs if y.op == "f" and is_call(y.a[0], "get_weight")]
        keys = [got(y.a[1][1], y.a[1][2], y.a[1][3]) for y in subs if len(y.a[1]) == 4]
        ctx.ob(kind + ":weight", len(fs) == 1 + len(need) and fs.count(wt) == 1 and len(subs) == len(need) and all(k in keys for k in need),
               "the weight is the product of the rule's and of the constituents': " + " * ".join(show(y) for y in fs), f)
        if not x.cond:
            ctx.undecided(kind + ":condition", "the condition is not known", f)
            continue
        asked = filtered = True
        for con in x.cond:
            asked_here = filt_here = False
            for p, b in con:
                if p.op == "more" or p.op == "is" and is_call(p.a[0], "get_weight"):
                    continue
                if p.op == "idx" and p.a[0] is filt:
                    ctx.ob(kind + ":filter", b and p.a[1] is rid, "the filter is asked about the rule itself: " + show(p), f)
                    filt_here = True
                elif kind == "Nullary" and p.op in ("eq", "lt") and not contains_any(p, given):
                    gap = psum(P(p.a[0]), P(p.a[1]), -1)
                    sign = gap.get((j,), 0)
                    if abs(sign) == 1 and psum(gap, {(j,): sign, (i,): -sign}, -1).keys() <= {()}:
                        off = gap.get((), 0)
                        holds = [((sign * d + off == 0) if p.op == "eq" else (sign * d + off < 0)) is b for d in (1, 2, 3)]
                        ctx.ob("Nullary:wide", holds == [True, False, False], "a terminal is one word wide: " + show(p), f)
                    else:
                        ctx.undecided("Nullary:condition", "a condition of a form that is not known: " + show(p), f)
                elif kind == "Nullary" and contains_any(p, given):
                    asked_here = True
                    if p.op == "is" or p.op in ("all", "any"):
                        ats = [y.a[1] for y in walk(p) if y.op == "idx" and contains_any(y.a[0], given) and y.a[0].op != "idx"]
                        if ats:
                            ctx.ob("Nullary:where", all(P(y) == P(i) for y in ats), "a terminal rule is for the word's terminal at its place: " + show(p), f)
                        eqs = [y for y in walk(p) if y.op == "eq"]
                        if eqs:
                            ctx.ob("Nullary:terminal", all(rid in y.a for y in eqs), "it is the rule itself that is among the terminal's rules: " + show(p), f)
                            if p.op in ("all", "any"):
                                neg = p.a[0].op == "not"
                                if (p.a[0].a[0] if neg else p.a[0]).op == "eq":
                                    ctx.ob("Nullary:among", (p.op, neg, b) in (("all", True, False), ("any", False, True)), "the rule is among the terminal's rules: " + show(p), f)
                elif p.op in ("eq", "lt", "idx") and kind != "Nullary" and not (p.op == "idx" and p.a[0].op != "arg"):
                    ctx.ob(kind + ":condition", False, "a derivation is left out for another reason: " + show(p), f)
                else:
                    ctx.undecided(kind + ":condition", "a condition of a form that is not known: " + show(p), f)
            asked = asked and asked_here
            filtered = filtered and filt_here
        if kind == "Nullary":
            ctx.ob("Nullary:word", asked, "terminal rules are those for the word's own terminals", f)
        ctx.ob(kind + ":filtered", filtered, "only rules that pass the filter are used", f)
    for k in ("Binary", "Unary", "Nullary"):
        if not seen.get(k):
            ctx.undecided(k, "no such derivations are added in a form that is known", f)


def contains_any(t, xs):
    return any(contains(t, x) for x in xs)


def j06_weight(ctx, f):
    i, j, ce = arg(f, 2), arg(f, 3), arg(f, 4)
    v = ctx.view(f, noinline=lambda g: "csparsing" in g["nname"] and g["nname"].split("::")[-1] in QUERIES)
    for k, r in paths(v):
        if not (is_adt(r, "Option") and r.a[1] == "Some"):
            continue
        kind = [p.a[1] for p, b in k if p.op == "is" and p.a[0] is ce and b]
        if len(kind) != 1:
            ctx.undecided("weight", "a case of a form that is not known", f)
            continue
        kind = kind[0]
        F_ = lambda n: mk("f", ce, str(n), kind)
        mine, subs = {"Nullary": (1, []), "Unary": (2, [(i, j, F_(1), F_(3))]), "Binary": (4, [(i, F_(2), F_(1), F_(5)), (F_(2), j, F_(3), F_(6))])}[kind]
        fs = factors(field(r, "0"))
        calls = []
        for y in fs:
            c = y.a[0].a[0] if y.op == "f" and y.a[1] == "1" and y.a[0].op == "f" else None
            if is_call(c, "kth"):
                calls.append(tuple(c.a[1][1:]))
        odd = [y for y in fs if y.op == "f" and y.a[0] is not ce and not (y.a[0].op == "f" and is_call(y.a[0].a[0], "kth"))]
        if odd:
            ctx.undecided("weight:" + kind, "a factor of a form that is not known: " + show(odd[0]), f)
            continue
        ctx.ob("weight:" + kind, len(fs) == 1 + len(subs) and fs.count(F_(mine)) == 1 and sorted(map(show, (t for c in calls for t in c))) == sorted(map(show, (t for c in subs for t in c))) and all(c in calls for c in subs),
               "a derivation's weight is the product of the rule's and of those of the derivations it notes: " + " * ".join(show(y) for y in fs), f)


def j06_steps(ctx):
    """the derivations that may follow one: with one index raised by one"""
    f = ctx.method(CSP + "automaton::kbest::backtrace::Iter<", "Iterator", "next")
    if not f:
        return
    me = arg(f, 1)
    v = ctx.view(f)
    raised = {}
    for k, r in paths(v):
        if not (is_adt(r, "Option") and r.a[1] == "Some"):
            continue
        bt = field(r, "0")
        if bt.op != "adt" or "IndexedBacktrace" not in bt.a[0]:
            ctx.undecided("step", "a backtrace of a form that is not known: " + show(bt), f)
            continue
        kind = bt.a[1]
        idx = {"Binary": ("5", "6"), "Unary": ("3",), "Nullary": ()}[kind]
        old = mk("f", me, "0", None)
        ups = []
        for n, t in bt.a[2]:
            want = [y for y in walk(t) if y.op == "f" and y.a[1] == n and len(y.a) > 2 and y.a[2] == kind]
            if t in want:
                continue
            d = psum(poly(t), {(want[0],): Fraction(1)}, -1) if len(want) == 1 else None
            if d is not None and not [y for y in d if y]:
                ups.append((n, d.get((), 0)))
            else:
                ups.append((n, None))
        ctx.ob("step:" + kind, len(ups) == 1 and ups[0][0] in idx and ups[0][1] == 1, "exactly one index is raised by one: " + show(bt), f)
        if len(ups) == 1:
            raised.setdefault(kind, []).append(ups[0][0])
    for kind, n in (("Binary", 2), ("Unary", 1)):
        got = raised.get(kind, [])
        if not got:
            ctx.undecided("step:" + kind, "no steps of a form that is known", f)
        else:
            ctx.ob("steps:" + kind, len(set(got)) == n and len(got) == n, "each index is raised in one of the steps: " + ", ".join(sorted(got)), f)
    f = ctx.method("IndexedBacktrace<", "IntoIterator", "into_iter", quiet=True)
    if f:
        for k, r in paths(ctx.view(f)):
            kind = [p.a[1] for p, b in k if p.op == "is" and b and p.a[0] is arg(f, 1)]
            at = field(r, "1")
            if r.op == "adt" and at.op == "c" and len(kind) == 1:
                n = {"Binary": 2, "Unary": 1, "Nullary": 0}[kind[0]]
                ctx.ob("steps:all " + kind[0], poly(at).get((), 0) == n, "all steps are taken: " + show(r), f)


def j06_kth(ctx, f):
    """the list of derivations of a span and state is filled from that span and state"""
    mine = [arg(f, k) for k in (2, 3, 4)]
    v = ctx.view(f, noinline=lambda g: "csparsing" in g["nname"] and g["nname"].split("::")[-1] in QUERIES or "unique_heap" in g["nname"])
    for x in v.events:
        if x.kind not in ("call", "enter"):
            continue
        last = x.path.split("::")[-1]
        a = [v.rw(y) for y in x.args]
        if last == "backtraces" and len(a) >= 8:
            ctx.ob("kth:span", a[-3:] == mine, "the derivations listed are those of the span and state: " + ", ".join(show(y) for y in a[-3:]), f)
        elif last in ("entry", "get_mut", "get", "index", "insert") and "HashMap" in x.path and len(a) >= 2 and a[1].op == "tuple" and len(a[1].a) == 3:
            ctx.ob("kth:key", list(a[1].a) == mine, "derivations are kept under their span and state: " + show(a[1]), f)
        elif last == "weight" and len(a) == 4 and "ChartIterator" in x.path:
            ctx.ob("kth:weighed", a[1:3] == mine[:2], "a derivation is weighed for its span: " + ", ".join(show(y) for y in a[1:3]), f)


def j06_next(ctx, f):
    me = arg(f, 1)
    v = ctx.view(f, noinline=lambda g: "csparsing" in g["nname"] and g["nname"].split("::")[-1] in QUERIES)
    k0 = field(me, "k")
    for k, r in paths(v):
        for y in walk(r):
            if is_call(y, "kth") and len(y.a[1]) == 5:
                a = y.a[1]
                top = a[2].a[0] if a[2].op == "cast" else a[2]
                ctx.ob("next:whole", not any(poly(a[1]).values()) and top is field(me, "n") and a[3] is field(me, "initial"),
                       "derivations are those of the whole word from the initial state: " + ", ".join(show(z) for z in a[1:4]), f)
                d = psum(poly(a[4]), {(k0,): Fraction(1)}, -1)
                if [z for z in d if z]:
                    ctx.undecided("next:k", "a number of a form that is not known: " + show(a[4]), f)
                    continue
                ctx.ob("next:first", not d.get((), 0), "the first derivation comes first: " + show(a[4]), f)
            if is_call(y, "read") and len(y.a[1]) == 4:
                a = y.a[1]
                src = a[3].a[0] if a[3].op == "f" and a[3].a[1] == "0" else None
                src = src.a[0] if src is not None and src.op == "f" else None
                if is_call(src, "kth"):
                    ctx.ob("next:read", a[1:3] == src.a[1][1:3], "the derivation is read for its own span: " + ", ".join(show(z) for z in a[1:3]), f)
    g = ctx.method(KB, None, "new", quiet=True)
    if g:
        for k, r in paths(ctx.view(g)):
            z = field(r, "k")
            if z.op == "c":
                ctx.ob("new:first", not any(poly(z).values()), "the enumeration starts with the first derivation: " + show(z), g)


def j06_generate(ctx, f):
    word, me = arg(f, 2), arg(f, 1)
    v = ctx.view(f, noinline=lambda g: "csparsing" in g["nname"] and g["nname"].split("::")[-1] in ("new", "fill_chart"))
    for k, r in paths(v):
        fills = [y for y in walk(r) if is_call(y, "fill_chart")]
        if not fills:
            ctx.undecided("generate", "an enumeration of a form that is not known: " + show(r), f)
            continue
        ctx.ob("generate:chart", all(y.a[1][0] is me and y.a[1][1] is word for y in fills), "the chart is that of the word: " + show(fills[0]), f)
        rest = r
        for y in fills:
            rest = subst(rest, y, mk("c", 0))
        ctx.ob("generate:word", contains(rest, word), "the enumeration is restricted to the word: " + show(r), f)
        for y in walk(rest):
            if y.op == "idx" and y.a[0] is word:
                at = poly(y.a[1])
                if y.a[1].op in ("pos", "bound"):
                    ctx.ob("generate:place", True, "the terminal at each place is asked for: " + show(y), f)
                elif at.get((), 0) and len(at) == 2:
                    ctx.ob("generate:place", False, "the terminal at each place is asked for: " + show(y), f)
