"""Hash-consed symbolic values and path conditions.

A value describes *where data comes from* (arguments, fields, results of calls, elements of collections).
A condition is a disjunction of conjunctions of literals (predicate term, bool).
There is no solver: conditions are only joined, conjoined, simplified and compared syntactically."""


class T:
    __slots__ = ("op", "a", "n", "_s")

    def __repr__(self):
        return show(self)


_tab = {}


def _mk(op, a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.n, t._s = op, a, len(_tab), None
        _tab[k] = t
    return t


def mk(op, *a):
    return _mk(op, a)


def const(v):
    return _mk("c", (type(v).__name__, v))


UNIT = mk("tuple")
TRUEV, FALSEV = const(True), const(False)
TRUE = frozenset([frozenset()])
FALSE = frozenset()
CAP = 24


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.a[1] if t.op == "c" else None


# ---------------------------------------------------------------- conditions
def conj_ok(c):
    """False when a conjunction contradicts itself."""
    pos_is = {}
    for p, v in c:
        if (p, not v) in c:
            return False
        if v and p.op == "is":
            o = pos_is.get(p.a[0])
            if o is not None and o != p.a[1]:
                return False
            pos_is[p.a[0]] = p.a[1]
    eqs = {}
    for p, v in c:
        if v and p.op == "eq" and is_const(p.a[1]):
            o = eqs.get(p.a[0])
            if o is not None and o is not p.a[1]:
                return False
            eqs[p.a[0]] = p.a[1]
    return True


_tidy = {}


def tidy(c):
    """the conjunction without literals on constants that follow from an equation; None when it contradicts itself"""
    r = _tidy.get(c, 0)
    if r != 0:
        return r
    r = _tidy[c] = _tidy1(c)
    return r


def _tidy1(c):
    if not conj_ok(c):
        return None
    eqs = {p.a[0]: p.a[1] for p, v in c if v and p.op == "eq" and is_const(p.a[1])}
    if not eqs:
        return c
    out = set()
    for p, v in c:
        t = None
        if p.op == "eq" and not v and p.a[0] in eqs and is_const(p.a[1]):
            t = eqs[p.a[0]].a == p.a[1].a
        elif p.op == "lt" and p.a[0] in eqs and _int(p.a[1]) and _int(eqs[p.a[0]]):
            t = eqs[p.a[0]].a[1] < p.a[1].a[1]
        elif p.op == "lt" and p.a[1] in eqs and _int(p.a[0]) and _int(eqs[p.a[1]]):
            t = p.a[0].a[1] < eqs[p.a[1]].a[1]
        if t is None:
            out.add((p, v))
        elif t != v:
            return None
    return frozenset(out)


EITHER = {}         # variant of a type with two variants -> the other ones it may be paired with


def complements(l):
    """literals that hold exactly if l does not"""
    p, v = l
    yield (p, not v)
    if v and p.op == "is":
        for o in EITHER.get(p.a[1], ()):
            yield (mk("is", p.a[0], o), True)


def simp(d):
    """absorption and complementary merging"""
    d = set(c for c in map(tidy, d) if c is not None)
    changed = True
    while changed and len(d) > 1:
        changed = False
        l = sorted(d, key=len)
        # absorption
        keep = []
        for c in l:
            if not any(k <= c for k in keep):
                keep.append(c)
        if len(keep) != len(d):
            d = set(keep)
            changed = True
            continue
        for c in keep:
            for lit in c:
                rest = c - {lit}
                # c = rest + lit ; another k <= rest + neg with neg in k  =>  resolve when k - neg <= rest
                for neg in complements(lit):
                    for k in keep:
                        if neg in k and (k - {neg}) <= rest:
                            d.discard(c)
                            d.add(rest)
                            changed = True
                            break
                    if changed:
                        break
                if changed:
                    break
            if changed:
                break
    if len(d) > CAP:
        common = frozenset.intersection(*d)
        return frozenset([common])
    return frozenset(d)


def c_or(*ds):
    s = set()
    for d in ds:
        s |= d
    if frozenset() in s:
        return TRUE
    return simp(s)


def c_and(a, b):
    if a is TRUE or a == TRUE:
        return b
    if b is TRUE or b == TRUE:
        return a
    if len(a) * len(b) > 400:
        if len(a) >= len(b):
            a = frozenset([frozenset.intersection(*a)]) if a else FALSE
        else:
            b = frozenset([frozenset.intersection(*b)]) if b else FALSE
    return simp(x | y for x in a for y in b)


def lit(p, v=True):
    if p.op == "not":
        return lit(p.a[0], not v)
    if p is TRUEV:
        return TRUE if v else FALSE
    if p is FALSEV:
        return FALSE if v else TRUE
    return frozenset([frozenset([(p, v)])])


def implied(d, p, v=True):
    """does every disjunct contain the literal"""
    return bool(d) and all((p, v) in c for c in d)


def lits(d):
    return set(l for c in d for l in c)


# ---------------------------------------------------------------- values
CANON = {"None": ("Some", False), "Err": ("Ok", False), "Break": ("Continue", False)}


def phi(alts):
    """alts: iterable of (cond, term)."""
    m = {}
    for c, t in alts:
        if not c:
            continue
        if t.op == "phi":
            for c2, t2 in t.a[0]:
                cc = c_and(c, c2)
                if cc:
                    m[t2] = c_or(m[t2], cc) if t2 in m else cc
        else:
            m[t] = c_or(m[t], c) if t in m else c
    if not m:
        return mk("never")
    if len(m) == 1:
        return next(iter(m))
    # booleans
    if len(m) > 16:
        return mk("many", tuple(sorted(m, key=lambda t: t.n)))
    # drop literals common to all alternatives
    common = frozenset.intersection(*[frozenset.intersection(*c) for c in m.values()])
    items = []
    for t, c in m.items():
        if common:
            c = frozenset(k - common for k in c)
        items.append((c, t))
    items.sort(key=lambda x: x[1].n)
    return mk("phi", tuple(items))


def alts(t):
    if t.op == "phi":
        return list(t.a[0])
    return [(TRUE, t)]


def variant(t, v):
    """condition under which the enum value t is variant v"""
    if t.op == "adt":
        return TRUE if t.a[1] == v else FALSE
    if t.op == "phi":
        r = FALSE
        for c, x in t.a[0]:
            r = c_or(r, c_and(c, variant(x, v)))
        return r
    if t.op == "trybr":
        if v == "Continue":
            return variant(t.a[0], "Some" if t.a[1] == "opt" else "Ok")
        return variant(t.a[0], "None" if t.a[1] == "opt" else "Err")
    if t.op == "never":
        return FALSE
    if v in CANON:
        o, _ = CANON[v]
        return c_neg1(taken(t, o))
    return taken(t, v)


POPS = ("Vec::pop", "VecDeque::pop_front", "VecDeque::pop_back", "BinaryHeap::pop", "String::pop", "BTreeSet::pop_first", "BTreeSet::pop_last")


def taken(t, v):
    if v == "Some" and t.op == "call" and t.a[0].endswith(POPS):
        return truth(eq(length(t.a[1][0]), const(0)), False)
    return lit(mk("is", t, v), True)


def c_neg1(d):
    (c,) = d
    ((p, v),) = c
    return lit(p, not v)


def variant_not(t, vs):
    if t.op == "adt":
        return FALSE if t.a[1] in vs else TRUE
    if t.op == "phi":
        r = FALSE
        for c, x in t.a[0]:
            r = c_or(r, c_and(c, variant_not(x, vs)))
        return r
    if t.op == "trybr":
        return variant(t, "Continue" if "Break" in vs else "Break")
    if "None" in vs and "Err" in vs:
        return lit(mk("is", t, "Some"), True)
    r = TRUE
    for v in vs:
        if v in CANON:
            r = c_and(r, taken(t, CANON[v][0]))
        else:
            r = c_and(r, c_neg1(taken(t, v)))
    return r


def truth(t, v=True):
    """condition under which the boolean value t equals v"""
    if t.op == "c":
        return TRUE if bool(t.a[1]) == v else FALSE
    if t.op == "not":
        return truth(t.a[0], not v)
    if t.op == "phi":
        r = FALSE
        for c, x in t.a[0]:
            r = c_or(r, c_and(c, truth(x, v)))
        return r
    if t.op == "and":
        if v:
            return c_and(truth(t.a[0]), truth(t.a[1]))
        return c_or(truth(t.a[0], False), truth(t.a[1], False))
    if t.op == "or":
        if v:
            return c_or(truth(t.a[0]), truth(t.a[1]))
        return c_and(truth(t.a[0], False), truth(t.a[1], False))
    if t.op == "isv":  # is variant as a value
        return variant(t.a[0], t.a[1]) if v else variant_not(t.a[0], (t.a[1],))
    return lit(t, v)


def field(t, name, var=None):
    if t.op == "adt":
        if var is not None and t.a[1] != var:
            return mk("never")
        for n, x in t.a[2]:
            if n == name:
                return x
    if t.op == "tuple":
        try:
            return t.a[int(name)]
        except (ValueError, IndexError):
            pass
    if t.op == "closure":
        for n, x in t.a[0]:
            if n == name:
                return x
    if t.op == "phi":
        r = [(c, field(x, name, var)) for c, x in t.a[0]]
        r = [(c, x) for c, x in r if x.op != "never"]
        return phi(r)
    if t.op == "never":
        return t
    if t.op == "trybr":
        if var == "Continue":
            return field(t.a[0], "0", "Some" if t.a[1] == "opt" else "Ok")
        if var == "Break":
            return mk("resid", t.a[0], t.a[1])
    if t.op == "upd":
        key = (var + ":" if var else "") + name
        base, ups = t.a
        ups = [(p, v) for p, v in ups]
        exact = [v for p, v in ups if p == (key,)]
        if exact:
            return exact[-1]
        deeper = tuple((p[1:], v) for p, v in ups if p and p[0] == key)
        b = field(base, name, var)
        return mk("upd", b, deeper) if deeper else b
    if t.op == "next" and var == "Some":
        return t.a[0]
    return mk("f", t, name, var)


def idx(t, i):
    if t.op == "array" and is_const(i) and isinstance(cval(i), int) and cval(i) < len(t.a):
        return t.a[cval(i)]
    if t.op == "phi":
        return phi([(c, idx(x, i)) for c, x in t.a[0]])
    if t.op == "upd":
        base, ups = t.a
        for p, v in ups:
            if len(p) == 1 and p[0] == ("[]", i):
                return v
        if not any(isinstance(p[0], tuple) for p, v in ups):
            return idx(base, i)
    if t.op == "slice":
        b, lo, hi = t.a
        return idx(b, add(lo, i)) if lo is not None else idx(b, i)
    return mk("idx", t, i)


def _int(t):
    return t.op == "c" and isinstance(t.a[1], int) and not isinstance(t.a[1], bool)


def hole(p):
    """the position that a traversal puts into `more(list, position)`; None if it does not visit the elements one to one"""
    q = p.a[1]
    if q.op == "revp":
        q = q.a[0]
    return q if q.op == "pos" else None


def add(a, b):
    if _int(a) and _int(b):
        return const(a.a[1] + b.a[1])
    if _int(a) and a.a[1] == 0:
        return b
    if _int(b) and b.a[1] == 0:
        return a
    # (x + c1) + c2
    parts, k = [], 0
    for x in (a, b):
        if x.op == "add":
            for y in x.a[0]:
                if _int(y):
                    k += y.a[1]
                else:
                    parts.append(y)
        elif _int(x):
            k += x.a[1]
        else:
            parts.append(x)
    parts.sort(key=lambda t: t.n)
    if k:
        parts.append(const(k))
    return mk("add", tuple(parts)) if len(parts) > 1 else parts[0]


def sub(a, b):
    if _int(b) and b.a[1] == 0:
        return a
    if _int(a) and _int(b):
        return const(a.a[1] - b.a[1])
    if a is b:
        return const(0)
    return mk("sub", a, b)


def mul(a, b):
    if _int(a) and _int(b):
        return const(a.a[1] * b.a[1])
    for x, y in ((a, b), (b, a)):
        if _int(x) and x.a[1] == 1:
            return y
    if b.n < a.n:
        a, b = b, a
    return mk("mul", a, b)


def eq(a, b):
    if a is b:
        return TRUEV
    if is_const(a) and is_const(b):
        return const(a.a == b.a)
    for x, y in ((a, b), (b, a)):
        if x.op == "c" and x.a[0] == "bool":
            return y if x.a[1] else not_(y)
        if x.op == "c" and _int(x) and x.a[1] in (0, 1) and y.op in ("eq", "lt", "not", "all", "isv"):
            return y if x.a[1] else not_(y)              # a boolean that a pattern compares with a number
    if is_const(a):
        a, b = b, a
    elif not is_const(b) and b.n < a.n:
        a, b = b, a
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and not x.a[2] and y.op != "adt":
            return mk("isv", y, x.a[1])
        if x.op == "adt" and x.a[0] in WRAP:
            n, z = x.a[2][0]
            if y.op == "adt":
                return eq(z, y.a[2][0][1]) if x.a[:2] == y.a[:2] else FALSEV
            return mk("and", mk("isv", y, x.a[1]), eq(field(y, n, x.a[1]), z))
    if a.op == b.op == "tuple" and len(a.a) == len(b.a) > 0:
        r = None
        for x, y in zip(a.a, b.a):
            r = eq(x, y) if r is None else mk("and", r, eq(x, y))
        return r
    return mk("eq", a, b)


WRAP = ("core::option::Option", "core::result::Result")


def lt(a, b):
    if _int(a) and _int(b):
        return const(a.a[1] < b.a[1])
    if _int(a) and a.a[1] == 0:
        return not_(eq(b, a))
    if _int(b) and b.a[1] == 1:
        return eq(a, const(0))
    if a is b:
        return FALSEV
    if b.op == "add" and len(b.a[0]) == 2 and const(1) in b.a[0]:      # whole numbers
        return not_(lt([x for x in b.a[0] if x is not const(1)][0], a))
    return mk("lt", a, b)


def not_(t):
    if t.op == "c":
        return const(not t.a[1])
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def length(t):
    if t.op == "array":
        return const(len(t.a))
    if t.op == "c" and isinstance(t.a[1], str):
        return const(len(t.a[1].encode()))
    return mk("len", t)


# ---------------------------------------------------------------- inspection
def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, frozenset, list)):
            stack.extend(x)


def contains(t, what):
    return any(x is what for x in walk(t))


def has(t, pred):
    return any(pred(x) for x in walk(t))


def show(t, d=7):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + " | ".join(show(x, d) for x in t) + "}"
        return str(t)
    if d == 0:
        return "…"
    o, a = t.op, t.a
    if o == "c":
        return repr(a[1]) if len(a) > 1 else "c(%s)" % (a,)
    if o == "arg":
        return "arg%s" % a[0] + ("(%s)" % a[1] if len(a) > 1 and a[1] else "")
    if o == "f":
        return show(a[0], d - 1) + "." + (a[2] + ":" if a[2] else "") + a[1]
    if o == "adt":
        return "%s%s{%s}" % (a[0].split("::")[-1], "::" + a[1] if a[1] != a[0].split("::")[-1] else "",
                             ", ".join("%s: %s" % (n, show(x, d - 1)) for n, x in a[2]))
    if o == "call":
        return a[0].split("::")[-2] + "::" + a[0].split("::")[-1] + "(" + ", ".join(show(x, d - 1) for x in a[1]) + ")" if "::" in a[0] else a[0] + "(...)"
    if o == "phi":
        return "φ{" + "; ".join(showc(c, d - 2) + " → " + show(x, d - 1) for c, x in a[0]) + "}"
    if o == "idx":
        return show(a[0], d - 1) + "[" + show(a[1], d - 1) + "]"
    if o == "loop":
        return "loop#" + str(a[-1])
    if o == "pos":
        return "i@" + str(a[0])[-6:]
    return o + "(" + ", ".join(show(x, d - 1) for x in a) + ")"


def showc(c, d=5):
    if d <= 0:
        d = 1
    if c == TRUE:
        return "always"
    return " | ".join(" & ".join(sorted(("" if v else "!") + show(p, d) for p, v in k)) for k in c)
