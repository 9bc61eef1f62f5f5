"""Canonical view of a summary: explicit loops are rewritten to the form iterator chains have.

 - the state of a `for` loop's iterator becomes the collection that is traversed,
 - a container that is empty at loop entry and is only added to becomes a `coll` (element, condition, ., kind),
   like the result of `collect`; several additions per round give `colls`."""
from terms import *
from ev import subst, c_not, OPT, RES

EMPTY = ("::new", "::with_capacity", "::default", "::with_capacity_and_hasher", "::with_hasher")
ADD1 = ("push", "push_back", "insert", "push_str", "push_front")


def is_empty_new(t):
    while t.op == "eff" and t.a[1] == 0 and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in ("reserve", "shrink_to_fit", "clear"):
        if t.a[0].a[0].endswith("::clear"):
            return True
        t = t.a[0].a[1][0]
    if t.op == "call" and t.a[0].endswith(EMPTY) and not any(x.op not in ("c", "len", "call", "add", "bin", "mul", "coll", "arg", "f", "idx", "phi")
                                                              for x in t.a[1]):
        return True
    return t.op == "array" and not t.a or t.op == "c" and t.a[1] == ""


def kind_of(t):
    if t.op == "call":
        p = t.a[0].split("::")
        return p[-2] if len(p) > 1 else ""
    return "Vec"


def strip(cond, entry):
    out = set()
    for k in cond:
        best = None
        for e in entry:
            if e <= k and (best is None or len(e) > len(best)):
                best = e
        out.add(k - best if best else k)
    return frozenset(out)


def grows(b, t, d):
    """is the value t or t plus one"""
    if d > 8:
        return False
    if b.op == "phi":
        return all(grows(x, t, d + 1) for _, x in b.a[0])
    return b is t or b.op == "loop" or b.op == "add" and len(b.a[0]) == 2 and b.a[0][1] is const(1) and grows(b.a[0][0], t, d + 1)


def assume(t, p, v):
    """t where the condition p is known to be v"""
    if not contains(t, p):
        return t
    if t.op == "phi":
        return phi([(frozenset(k - {(p, v)} for k in c if (p, not v) not in k), assume(x, p, v)) for c, x in t.a[0]
                    if any((p, not v) not in k for k in c)])
    if t is p:
        return TRUEV if v else FALSEV
    return _rebuild(t, lambda x: assume(x, p, v), lambda c: frozenset(k - {(p, v)} for k in c if (p, not v) not in k))


class View:
    def __init__(self, e):
        self.e, self.f = e, e.f
        self.memo = {}
        self.busy = set()
        self.byret = {}
        for x in e.events:
            if x.kind == "call" and x.ret is not None:
                self.byret.setdefault(x.ret, []).append(x)
        self.events = []
        self.accs = {}
        for x in e.events:
            y = type(x)()
            for s in x.__slots__:
                setattr(y, s, getattr(x, s))
            y.args = tuple(self.rw(a) for a in x.args)
            y.ret = self.rw(x.ret) if isinstance(x.ret, T) else x.ret
            y.cond = self.rwc(x.cond)
            y.raw = x
            self.events.append(y)
        self.loops = e.loops
        self.inlined = e.inlined
        self._ret = None

    def final_value(self, argterm, *path):
        return self.rw(self.e.final_value(argterm, *path))

    def returns(self):
        if self._ret is None:
            self._ret = []
            for c, v in self.e.returns():
                w = self.rw(v)
                for c2, x in alts(w):
                    self._ret.append((c_and(self.rwc(c), c2), x))
        return self._ret

    # ---------------------------------------------------------------- rewriting
    def rwc(self, c):
        r = FALSE
        for k in c:
            x = TRUE
            for p, v in k:
                if not v and p.op == "more" and optional(self.rw(p.a[0])):
                    continue                                 # the end of a traversal of what an option holds says nothing
                x = c_and(x, truth(self.rw(p), v))
            r = c_or(r, x)
        return r

    def rw(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if t.op in ("c", "arg", "pos"):
            r = t
        elif t.op == "loop":
            r = self.loop(t)
            if self.busy:
                return r
        elif t.op == "f":
            b = self.rw(t.a[0])
            kn = self.stored(b) if t.a[2] == "Some" else None
            r = kn[0] if kn else field(b, t.a[1], t.a[2])
        elif t.op == "idx":
            r = self.idx(self.rw(t.a[0]), self.rw(t.a[1]))
        elif t.op == "phi":
            r = phi([(self.rwc(c), self.rw(x)) for c, x in t.a[0]])
        elif t.op == "is":
            b = self.rw(t.a[0])
            kn = self.stored(b) if t.a[1] in ("Some", "None") else None
            r = (TRUEV if t.a[1] == "Some" else FALSEV) if kn and kn[1] else self.unlit(variant(b, t.a[1]), t)
        elif t.op == "eq":
            r = eq(self.rw(t.a[0]), self.rw(t.a[1]))
        elif t.op == "lt":
            x, y = self.rw(t.a[0]), self.rw(t.a[1])
            r = self.more(y.a[0], x) if x.op == "pos" and y.op == "len" else lt(x, y)
        elif t.op == "len":
            r = self.length(self.rw(t.a[0]))
        elif t.op == "more":
            r = self.more(self.rw(t.a[0]), t.a[1])
        elif t.op == "coll":
            r = self.parts(mk("coll", self.rw(t.a[0]), self.rwc(t.a[1]), self.src(self.rw(t.a[2])), t.a[3]))
        elif t.op == "add":
            r = None
            for x in t.a[0]:
                y = self.rw(x)
                r = y if r is None else add(r, y)
        elif t.op == "sub":
            r = sub(self.rw(t.a[0]), self.rw(t.a[1]))
        else:
            r = _rebuild(t, self.rw, self.rwc)
            if r.op == "call" and r.a[0].endswith("Entry::or_insert") and len(r.a[1]) == 2 and r.a[1][0].op == "call" and r.a[1][0].a[0].endswith("::entry"):
                kn = self.stored(mk("call", "get", r.a[1][0].a[1]))
                if kn and kn[0] is r.a[1][1]:
                    r = kn[0]                                # a map that remembers a function of its keys
            if r.op == "call" and r.a[0].endswith("box_assume_init_into_vec_unsafe") and r.a[1][0].op == "upd" and len(r.a[1][0].a[1]) == 1 and \
                    r.a[1][0].a[1][0][1].op == "array":
                r = r.a[1][0].a[1][0][1]                     # vec![..]
            if r.op == "call" and r.a[0] == "std::iter::Iterator::count" and r.a[1][0].op == "coll":
                r = count_of(r.a[1][0].a[1])
        if not self.busy:
            self.memo[t] = r
        return r

    def parts(self, r):
        """a collection of what two iterators yield one after the other"""
        cs = set(p for k in r.a[1] for p, _ in k if p.op == "chain")
        if len(cs) != 1 or r.a[3].split(":")[-1] not in ("Vec", "VecDeque", ""):
            return r
        p = cs.pop()
        two = []
        for v in (True, False):
            el = assume(r.a[0], p, v)
            c = c_or(*[frozenset([k - {(p, v)}]) for k in r.a[1] if (p, not v) not in k])
            x = mk("coll", el, c, UNIT, r.a[3])
            if el.op == "idx" and c == lit(mk("more", el.a[0], el.a[1])):
                x = el.a[0]                                  # a copy
            two.append(x)
        return mk("cat", *two)

    def stored(self, t):
        """what is known about a lookup in a map that remembers a function of its keys: (the value, is it there for sure)"""
        if t.op != "call" or t.a[0].split("::")[-1] not in ("get", "get_mut") or len(t.a[1]) != 2:
            return None
        m, k = t.a[1]
        if k.op == "f" and k.a[1] == "0" and k.a[0].op == "idx" and k.a[0].a[0] is m:
            return field(k.a[0], "1"), True                  # the value for a key of the map

        def look(m, cond):
            if m.op == "phi":
                rs = [look(x, c) for c, x in m.a[0]]
                if any(r is None or r[0] is not rs[0][0] for r in rs):
                    return None
                return rs[0][0], all(r[1] for r in rs)
            if m.op == "eff" and m.a[1] == 0 and m.a[0].op == "call" and m.a[0].a[0].endswith("Map::insert") and m.a[0].a[1][1] is k:
                return m.a[0].a[1][2], True
            if m.op == "coll" and m.a[3].startswith("first:") and m.a[0].op == "tuple":
                key, v = m.a[0].a
                hole = mk("pos", "hole")
                g = subst(v, key, hole)
                bound = [p.a[1] for kk in m.a[1] for p, x in kk if p.op == "more" and x and p.a[1].op == "pos"]
                if any(contains(g, x) for x in list(walk(key)) + bound if x.op == "pos") or any(x.op == "loop" for x in walk(g)):
                    return None
                there = all(any(x and p.op == "call" and p.a[0].endswith("contains_key") and p.a[1][0] is m and p.a[1][1] is k for p, x in kk) for kk in cond)
                return subst(g, hole, k), bool(cond) and there
            return None
        return look(m, TRUE)

    def unlit(self, c, t):
        """a condition as a boolean term"""
        if c == TRUE:
            return TRUEV
        if not c:
            return FALSEV
        if len(c) == 1:
            k = next(iter(c))
            if len(k) == 1:
                p, v = next(iter(k))
                return p if v else not_(p)
        r = None
        for k in c:
            x = None
            for p, v in sorted(k, key=lambda l: l[0].n):
                y = p if v else not_(p)
                x = y if x is None else mk("and", x, y)
            r = x if r is None else mk("or", r, x)
        return r

    def idx(self, b, i):
        if i.op == "pos" and optional(b):
            return field(b, "0", "Some")
        if b.op == "coll" and b.a[3] in ("Vec", "VecDeque", "") and len(b.a[1]) == 1 and i.op == "pos":
            k = next(iter(b.a[1]))
            if len(k) == 1:
                p, v = next(iter(k))
                if v and p.op == "more" and hole(p):
                    return subst(b.a[0], hole(p), i)
        return idx(b, i)

    def length(self, b):
        if b.op == "coll" and b.a[3] in ("Vec", "VecDeque", "") and len(b.a[1]) == 1:
            k = next(iter(b.a[1]))
            if len(k) == 1:
                p, v = next(iter(k))
                if v and p.op == "more" and hole(p):
                    return length(p.a[0])
                if v and p.op == "lt" and p.a[0].op == "pos":
                    return p.a[1]
        if b.op == "coll" and b.a[3] in ("Vec", "VecDeque", ""):
            return count_of(b.a[1])
        return length(b)

    def more(self, b, i):
        if i.op == "pos" and optional(b):
            return self.unlit(variant(b, "Some"), mk("is", b, "Some"))
        if is_empty_new(b):
            return FALSEV
        if b.op == "adt" and b.a[0].split("::")[-1] == "Range":
            fs = dict(b.a[2])
            if fs["start"] is const(0) and i.op == "pos":
                if fs["end"].op == "len":
                    return self.more(fs["end"].a[0], i)
                return lt(i, fs["end"])
        if b.op == "coll" and b.a[3] in ("Vec", "VecDeque", "") and len(b.a[1]) == 1 and i.op == "pos":
            k = next(iter(b.a[1]))
            if len(k) == 1:
                p, v = next(iter(k))
                if v and p.op == "more" and hole(p):
                    return subst(p, hole(p), i)
        return mk("more", b, i)

    def src(self, x):
        if x.op == "adt" and x.a[0].split("::")[-1] == "Range":
            fs = dict(x.a[2])
            if fs["start"] is const(0) and fs["end"].op == "len":
                return fs["end"].a[0]
        return x

    # ---------------------------------------------------------------- loops
    def loop(self, t):
        if t in self.busy:
            return t
        L = self.e.loops.get(t)
        if not L or L["init"] is None:
            return t
        self.busy.add(t)
        try:
            r = self.loop1(t, L)
        finally:
            self.busy.discard(t)
        if not self.busy:
            self.memo[t] = r
        return r

    def loop1(self, t, L):
        back, init = L["back"], L["init"]
        if back and all(b.op == "eff" and b.a[0].op == "call" and b.a[0].a[0] == "next" and b.a[0].a[1][0] is t for b in back):
            return self.rw(init)
        if not back:
            return self.rw(init)
        if init.op == "adt" and init.a[2] and init.a[0] not in (OPT, RES) and "ops::" not in init.a[0] or init.op == "tuple" and init.a:
            names = [n for n, _ in init.a[2]] if init.op == "adt" else [str(i) for i in range(len(init.a))]
            if all(same_shape(b, init) for b in back):
                fs = [self.acc(field(t, n), field(init, n), [field(b, n) for b in back], L) for n in names]
                return mk("adt", init.a[0], init.a[1], tuple(zip(names, fs))) if init.op == "adt" else mk("tuple", *fs)
        return self.acc(t, init, back, L)

    def acc(self, t, init, back, L):
        if all(b is t for b in back):
            return self.rw(init)
        if init.op == "loop" and init is not t and self.alias(init, t) is None and self.nested(t, init):
            return self.rw(init)                             # a loop inside the loop that builds the collection
        if init is const(0) and all(b is add(t, const(1)) for b in back):  # a counter that every round increments
            return mk("pos", "w/%d" % t.n)
        if init is TRUEV or init is FALSEV:
            n = self.flag(t, init, back, L)
            if n is not None:
                return n
        if init is const(0) or init.op in ("len", "c", "add", "f", "arg") and back and all(grows(b, t, 0) for b in back):
            n = self.counted(t, back, L)
            if n is not None:
                return n if init is const(0) else add(self.rw(init), n)
        ups = []
        for b in back:
            if not self.updates(b, t, ups, 0):
                return t
        if any(m == "group" for _, _, m in ups):             # empty lists that are appended are padding
            ups = [u for u in ups if u[2] or not is_empty_new(u[0])]
        modes = set(m for _, _, m in ups)
        if len(modes) != 1:
            return t
        mode = modes.pop()
        empty = is_empty_new(init) or mode == "group" and init.op == "call" and init.a[0].endswith("from_elem") and is_empty_new(init.a[1][0])
        base = None
        if mode != "minus" and not empty:
            base = self.rw(init)
            if mode or not (base.op in ("coll", "colls", "cat") and kind_of_c(base) in ("Vec", "VecDeque", "BTreeSet", "HashSet")):
                return t
        res, seen, maps = [], set(), set()
        kd = kind_of(init) if base is None else kind_of_c(base)
        isset = kd in ("BTreeSet", "HashSet")
        ismap = kd.endswith("Map")
        done = self.completed(L)
        part = self.broken(L)
        for el, cond, _ in ups:
            el2 = self.rw(el)
            cond = strip(cond, L.get("c", TRUE))
            if mode == "" and (isset or ismap):
                key = el.a[0] if ismap and el.op == "tuple" else el
                c3 = self.not_yet(cond, t, key)
                guarded = c3 != cond
                cond = c3
                if ismap:
                    maps.add(guarded)
            cond = frozenset(k - done for k in cond)
            c2 = self.rwc(cond)
            if contains(el2, t):
                return t
            if (el2, c2) not in seen:
                seen.add((el2, c2))
                res.append((el2, c2))
        if mode == "minus":
            return mk("minus", self.rw(init), tuple(res))
        if maps == {True}:
            mode = "first"
        kind = ("until:" if part else "") + (mode + ":" if mode else "") + kd
        self.accs[t] = res
        if base is not None:
            return mk("cat", base, mk("colls", tuple(res), kind) if len(res) > 1 else mk("coll", res[0][0], res[0][1], UNIT, kind))
        if len(res) == 1:
            c = res[0][1]
            src = UNIT
            if len(c) == 1:
                ms = [p for p, v in next(iter(c)) if p.op == "more" and v]
                if len(ms) == 1:
                    src = ms[0].a[0]
            return mk("coll", res[0][0], c, src, kind)
        return mk("colls", tuple(res), kind)

    def flag(self, t, init, back, L):
        """a boolean that may change its initial value in some round: does no round"""
        ups = []

        def go(b, cond):
            if b is t:
                return True
            if b.op == "phi":
                return all(go(x, c_and(cond, c)) for c, x in b.a[0])
            if b is (FALSEV if init is TRUEV else TRUEV):
                ups.append(cond)
                return True
            return False
        if self.broken(L) or not all(go(b, c) for b, c in zip(back, L["backc"])) or not ups:
            return None
        c = c_or(*[strip(c, L.get("c", TRUE)) for c in ups])
        done = self.completed(L)
        c = self.rwc(frozenset(k - done for k in c))
        if len(c) != 1:
            return None
        k = next(iter(c))
        over = frozenset(l for l in k if l[0].op in ("more", "lt") and l[1] and l[0].a[-1 if l[0].op == "more" else 0].op == "pos")
        rest = list(k - over)
        if len(rest) != 1 or contains(rest[0][0], t) or not over:
            return None
        p, v = rest[0]
        r = mk("all", not_(p) if v else p, frozenset([over]))
        return r if init is TRUEV else not_(r)

    def counted(self, t, back, L):
        """a number that grows by one in some rounds: how many these are"""
        ups = []
        if self.broken(L) or not all(self.steps(b, c, t, ups, 0) for b, c in zip(back, L.get("backc", []))) or not ups:
            return None
        done = self.completed(L)
        c = c_or(*[frozenset(k - done for k in strip(c, L.get("c", TRUE))) for c in ups])
        c = self.rwc(c)
        if any(contains(p, t) for k in c for p, _ in k):
            return None
        return count_of(c)

    def steps(self, b, cond, t, ups, d):
        if b is t:
            return True
        if d > 20:
            return False
        if b.op == "phi":
            return all(self.steps(x, c_and(cond, c), t, ups, d + 1) for c, x in b.a[0])
        if b.op == "loop":
            L = self.e.loops.get(b)
            if not L or L["init"] is None or self.broken(L) or not self.steps(L["init"], cond, t, ups, d + 1):
                return False
            return all(self.steps(x, c, b, ups, d + 1) for x, c in zip(L["back"], L.get("backc", [])))
        if b.op == "add" and len(b.a[0]) == 2 and b.a[0][1] is const(1):
            ups.append(cond)
            return self.steps(b.a[0][0], cond, t, ups, d + 1)
        return False

    def nested(self, t, outer, d=0):
        """is t a loop inside the loop of outer"""
        if d > 10 or outer not in self.e.loops:
            return False
        return any(contains(b, t) for b in self.e.loops[outer]["back"])

    def completed(self, L):
        """literals that hold in every round after which the loop goes on"""
        if not isinstance(L["site"][1], int):                # a traversal by the library: elements that are not produced do not end it
            return frozenset()
        cs = [k for c in L.get("backc", []) for k in c]
        if not cs:
            return frozenset()
        return frozenset(l for l in frozenset.intersection(*cs) if l[0].op not in ("more", "while", "lt") and l not in self.e.iterlits)

    def broken(self, L):
        f, head = L["site"]
        if not isinstance(head, int):
            return False
        return self.e.breaks(self.e.p.fns[f], head)

    def alias(self, x, t):
        """the container t, as seen from a loop inside"""
        for _ in range(20):
            if x is t:
                return t
            if x.op != "loop" or x not in self.e.loops or self.e.loops[x]["init"] is None:
                return None
            x = self.e.loops[x]["init"]
        return None

    def not_yet(self, cond, t, key):
        """the condition without the test that the key is not in the container yet"""
        out = set()
        for k in cond:
            k2 = set()
            for p, v in k:
                q = p.a[0] if p.op == "is" else p
                if q.op == "call" and len(q.a[1]) == 2 and q.a[1][1] is key and self.alias(q.a[1][0], t) is t:
                    n = q.a[0].split("::")[-1]
                    if n in ("contains", "contains_key", "get", "get_mut") and not v:
                        continue
                    if n == "entry" and p.op == "is" and (p.a[1] == "Vacant") == v:
                        continue
                k2.add((p, v))
            out.add(frozenset(k2))
        return frozenset(out)

    def updates(self, b, t, ups, d):
        """collect what is added (mode ""), added to the list of a key ("group"), recorded for a new key ("first") or removed ("minus")
        on the way from t to b"""
        if d > 40:
            return False
        if b is t:
            return True
        if b.op == "phi":
            return all(self.updates(x, t, ups, d + 1) for _, x in b.a[0])
        if b.op == "never":
            return True
        if b.op == "loop" or b.op == "f" and b.a[0].op == "loop":
            l = b if b.op == "loop" else b.a[0]
            L = self.e.loops.get(l)
            if not L or L["init"] is None:
                return False
            pr = (lambda x: x) if b.op == "loop" else (lambda x: field(x, b.a[1], b.a[2]))
            if not self.updates(pr(L["init"]), t, ups, d + 1):
                return False
            return all(self.updates(pr(x), b, ups, d + 1) for x in L["back"])
        if b.op == "upd":                                   # the list at an index changes
            base, us = b.a
            if not self.updates(base, t, ups, d + 1):
                return False
            for p, v in us:
                if len(p) != 1 or not isinstance(p[0], tuple) or p[0][0] != "[]":
                    return False
                sub_ups = []
                for c, x in alts(v):
                    if not self.inner(x, sub_ups, 0):
                        return False
                for el, c, m in sub_ups:
                    ups.append((mk("tuple", p[0][1], el), c, "minus" if m == "minus" else "group"))
            return True
        if b.op == "eff" and b.a[1] == 0 and b.a[0].op == "call":
            c = b.a[0]
            n = c.a[0].split("::")[-1]
            if not self.updates(c.a[1][0], t, ups, d + 1):
                return False
            evs = self.byret.get(c, [])
            if n in ADD1 and len(c.a[1]) in (2, 3) and evs:
                el = c.a[1][1] if len(c.a[1]) == 2 else mk("tuple", *c.a[1][1:])
                for x in evs:
                    ups.append((el, x.cond, ""))
                return True
            if n == "remove" and len(c.a[1]) == 2 and evs:
                for x in evs:
                    ups.append((c.a[1][1], x.cond, "minus"))
                return True
            if n in ("resize_with", "resize") and len(c.a[1]) == 3 and (c.a[1][2].op == "fnitem" and c.a[1][2].a[1].endswith("::new") or is_empty_new(c.a[1][2])):
                return True
            if n in ("reserve", "shrink_to_fit"):
                return True
            if n == "extend" and len(c.a[1]) == 2 and evs:
                co = c.a[1][1]
                for x in evs:
                    if co.op == "coll":
                        ups.append((co.a[0], c_and(x.cond, co.a[1]), ""))
                    else:
                        return False
                return True
            if n == "get_mut" and len(c.a[1]) == 2:          # the list of a key that is there
                sub_ups = []
                if not self.held(field(c, "0", "Some"), sub_ups):
                    return False
                for el, k in sub_ups:
                    ups.append((mk("tuple", c.a[1][1], el), k, "group"))
                return True
            if n == "entry" and len(c.a[1]) == 2:
                hit = False
                for x in self.e.events:
                    if x.kind != "call" or not x.args or not contains(x.args[0], c):
                        continue
                    if x.path.endswith("VacantEntry::insert") and x.args[0] is field(c, "0", "Vacant"):
                        ups.append((mk("tuple", c.a[1][1], x.args[1]), x.cond, ""))
                        hit = True
                    elif x.path == "Entry::or_insert" and x.args[0] is c:
                        sub_ups = []
                        if not self.held(x.ret, sub_ups):
                            return False
                        if sub_ups and not is_empty_new(x.args[1]):
                            return False
                        for el, k in sub_ups:
                            ups.append((mk("tuple", c.a[1][1], el), k, "group"))
                        if not sub_ups:
                            ups.append((mk("tuple", c.a[1][1], x.args[1]), x.cond, "first"))
                        hit = True
                    elif x.path.endswith(("OccupiedEntry::insert", "OccupiedEntry::get_mut", "OccupiedEntry::into_mut", "OccupiedEntry::remove")):
                        return False
                return hit
        return False

    def inner(self, x, ups, d):
        """additions to / removals from a list inside a container"""
        if d > 20:
            return False
        if x.op == "idx" or x.op == "f":
            return True
        if x.op == "phi":
            return all(self.inner(y, ups, d + 1) for _, y in x.a[0])
        if x.op == "eff" and x.a[1] == 0 and x.a[0].op == "call":
            c = x.a[0]
            n = c.a[0].split("::")[-1]
            if not self.inner(c.a[1][0], ups, d + 1):
                return False
            evs = self.byret.get(c, [])
            if evs and len(c.a[1]) in (2, 3) and (n in ADD1 or n == "remove"):
                el = c.a[1][1] if len(c.a[1]) == 2 else mk("tuple", *c.a[1][1:])
                for e in evs:
                    ups.append((el, e.cond, "minus" if n == "remove" else ""))
                return True
        return False

    def held(self, r, ups):
        """what is added to the container behind the reference r"""
        for x in self.e.events:
            if x.kind == "write" and x.args and x.args[0] is r and not (x.args[1].op == "eff"):
                return False
            if x.kind != "call" or not x.args:
                continue
            b = x.args[0]
            for _ in range(30):
                if b.op == "eff" and b.a[0].op == "call" and b.a[1] == 0:
                    b = b.a[0].a[1][0]
                elif b.op == "loop" and b is not r and b in self.e.loops and self.e.loops[b]["init"] is not None:
                    b = self.e.loops[b]["init"]
                else:
                    break
            if b is not r:
                continue
            n = x.path.split("::")[-1]
            if n in ADD1 and len(x.args) in (2, 3):
                ups.append((x.args[1] if len(x.args) == 2 else mk("tuple", *x.args[1:]), x.cond))
            elif n in ("len", "is_empty", "eq", "iter", "contains", "get"):
                continue
            elif x.path.endswith("Entry::or_insert"):
                continue
            elif n in ("remove", "pop", "clear", "truncate", "swap", "sort", "extend", "retain", "drain", "append"):
                return False
        return True


def kind_of_c(t):
    return t.a[3] if t.op == "coll" else t.a[1] if t.op == "colls" else kind_of_c(t.a[0]) if t.op == "cat" else ""


def optional(b):
    """is it a call of the library that yields an option"""
    return b.op == "call" and len(b.a[1]) <= 2 and len(b.a[0].split("::")) > 1 and b.a[0].split("::")[-1] in ("get", "first", "last", "pop", "pop_front", "pop_back", "peek", "first_key_value",
                                                                         "last_key_value", "get_key_value", "checked_sub", "find", "max", "min") \
        and b.a[0].split("::")[-2] in ("HashMap", "BTreeMap", "Vec", "VecDeque", "HashSet", "BTreeSet", "BinaryHeap", "impl", "slice")


def count_of(c):
    """the number of values of the positions such that the condition holds"""
    return mk("call", "std::iter::Iterator::count", (mk("coll", UNIT, c, UNIT, ""),))


def same_shape(b, init):
    """is b still a value of the variant of init"""
    if b.op == "phi":
        return all(same_shape(x, init) for _, x in b.a[0])
    if b.op == "adt":
        return b.a[:2] == init.a[:2]
    if b.op == "tuple":
        return init.op == "tuple" and len(b.a) == len(init.a)
    if b.op == "upd":
        return same_shape(b.a[0], init)
    return b.op == "loop"


def _rebuild(t, f, fc):
    def r(x):
        if isinstance(x, T):
            return f(x)
        if isinstance(x, tuple):
            return tuple(r(y) for y in x)
        if isinstance(x, frozenset):
            return fc(x) if all(isinstance(k, frozenset) for k in x) else frozenset(r(y) for y in x)
        return x
    return mk(t.op, *[r(x) for x in t.a])
