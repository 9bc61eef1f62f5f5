"""Patterns over values and conditions, with metavariables.  match(p, t, env) yields every environment under which t has the form p."""
from terms import *


class P:
    def __init__(self, kind, *a, **kw):
        self.kind, self.a, self.kw = kind, a, kw

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.a)))


def V(name, where=None):
    return P("var", name, where)


def I(name):
    """a position of a plain traversal: from the first to the last element"""
    return P("var", name, lambda t: t.op == "pos")


ANY = P("any")


def F(p, *names):
    for n in names:
        p = P("f", p, n.split(":")[-1], n.split(":")[0] if ":" in n else None)
    return p


def IX(p, i):
    return P("idx", p, i)


def OP(op, *a):
    return P("op", op, *a)


def TUP(*a):
    return P("op", "tuple", *a)


def CALL(names, *a):
    return P("call", names if isinstance(names, tuple) else (names,), *a)


def COLL(el, lits, opt=(), kinds=None):
    """a collection: elements el for all values of the positions such that the literals hold; literals in opt may be there or not"""
    return P("coll", el, lits, opt, kinds)


def ALT(*a):
    return P("alt", *a)


def LEN(p):
    return P("op", "len", p)


def EQ(a, b):
    return P("eq", a, b)


def LT(a, b):
    return P("op", "lt", a, b)


def MORE(p, i):
    return P("op", "more", p, i)


def IS(p, var):
    return P("is", p, var)


def ADT(name, var=None, **fields):
    return P("adt", name, var, fields)


def PHI(*cases_):
    """a value that depends on a condition: cases (literals, optional literals, value), each one of them present"""
    return P("phi", *cases_)


def ALL(pred, lits, opt=()):
    """the predicate holds for all values of the positions such that the literals hold"""
    return P("all", pred, lits, opt)


def PLUS(p, n):
    """a value plus a constant"""
    return P("plus", p, n)


def WHERE(p, fn):
    return P("where", p, fn)


def match(p, t, env):
    if isinstance(p, T):
        if p is t:
            yield env
        return
    if not isinstance(p, P):
        if p == t:
            yield env
        return
    k, a = p.kind, p.a
    if k == "any":
        yield env
    elif k == "var":
        if a[0] in env:
            if env[a[0]] is t:
                yield env
        elif a[1] is None or a[1](t):
            e = dict(env)
            e[a[0]] = t
            yield e
    elif k == "alt":
        for q in a:
            yield from match(q, t, env)
    elif k == "where":
        for e in match(a[0], t, env):
            if a[1](e):
                yield e
    elif not isinstance(t, T):
        return
    elif k == "f":
        if t.op == "f" and t.a[1] == a[1] and (a[2] is None or t.a[2] == a[2]):
            yield from match(a[0], t.a[0], env)
    elif k == "idx":
        if t.op == "idx":
            for e in match(a[0], t.a[0], env):
                yield from match(a[1], t.a[1], e)
    elif k == "op":
        if t.op == a[0] and len(t.a) == len(a) - 1:
            yield from _seq(a[1:], t.a, env)
    elif k == "eq":
        if t.op == "eq":
            yield from _seq(a, t.a, env)
            yield from _seq(a, t.a[::-1], env)
    elif k == "is":
        if t.op == "is" and t.a[1] == a[1]:
            yield from match(a[0], t.a[0], env)
    elif k == "call":
        if t.op == "call" and any(t.a[0] == n or t.a[0].endswith("::" + n) for n in a[0]) and len(t.a[1]) == len(a) - 1:
            yield from _seq(a[1:], t.a[1], env)
    elif k == "adt":
        if t.op == "adt" and t.a[0].split("::")[-1] == a[0] and (a[1] is None or t.a[1] == a[1]):
            d = dict(t.a[2])
            yield from _fields(sorted(a[2].items()), d, env)
    elif k == "all":
        if t.op == "all":
            for e in match(a[0], t.a[0], env):
                yield from dnf(a[1], a[2], t.a[1], e)
    elif k == "plus":
        if t.op == "add" and len(t.a[0]) == 2:
            x, y = t.a[0]
            for x, y in ((x, y), (y, x)):
                if y is const(a[1]):
                    yield from match(a[0], x, env)
    elif k == "phi":
        if t.op == "phi" and len(t.a[0]) == len(a):
            yield from _phi(a, list(t.a[0]), env)
    elif k == "coll":
        if t.op == "coll" and (a[3] is None or t.a[3] in a[3]):
            for e in match(a[0], t.a[0], env):
                yield from dnf(a[1], a[2], t.a[1], e)
    else:
        raise ValueError(k)


def _fields(fs, d, env):
    if not fs:
        yield env
        return
    n, p = fs[0]
    n = n.lstrip("_") if n.startswith("_") else n
    if n in d:
        for e in match(p, d[n], env):
            yield from _fields(fs[1:], d, e)


def _phi(ps, ts, env):
    if not ps:
        yield env
        return
    lits, opt, val = ps[0]
    for i, (c, v) in enumerate(ts):
        for e in match(val, v, env):
            for e2 in dnf(lits, opt, c, e):
                yield from _phi(ps[1:], ts[:i] + ts[i + 1:], e2)


def _seq(ps, ts, env):
    if not ps:
        yield env
        return
    for e in match(ps[0], ts[0], env):
        yield from _seq(ps[1:], ts[1:], e)


def dnf(lits, opt, c, env):
    """every conjunction of c consists of the given literals"""
    cs = list(c)
    if not cs:
        return

    def go(i, e):
        if i == len(cs):
            yield e
            return
        for e2 in conj(lits, opt, cs[i], e):
            yield from go(i + 1, e2)
    yield from go(0, env)


def _lit(l):
    if isinstance(l, tuple) and len(l) == 2 and isinstance(l[1], bool):
        return l
    return (l, True)


def conj(lits, opt, k, env, rest=False):
    """the conjunction consists of exactly the given literals (opt: may be missing; rest: more are allowed)"""
    lits = [_lit(l) for l in lits]
    opt = [_lit(l) for l in opt]
    used = []

    def go(ls, left, e):
        if not ls:
            if rest or not left:
                yield e
                return
            # the rest must be optional
            yield from opts(list(left), e)
            return
        p, v = ls[0]
        for q in left:
            if q[1] == v:
                for e2 in match(p, q[0], e):
                    yield from go(ls[1:], left - {q}, e2)

    def opts(left, e):
        if not left:
            yield e
            return
        q = left[0]
        for p, v in opt:
            if v == q[1]:
                for e2 in match(p, q[0], e):
                    yield from opts(left[1:], e2)
    yield from go(lits, frozenset(k), env)


def first(p, t, env=None):
    for e in match(p, t, dict(env or {})):
        return e
    return None


def first_conj(lits, opt, k, env=None, rest=False):
    for e in conj(lits, opt, k, dict(env or {}), rest):
        return e
    return None


def first_dnf(lits, opt, c, env=None):
    for e in dnf(lits, opt, c, dict(env or {})):
        return e
    return None
