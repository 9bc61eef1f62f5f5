"""Finite-state abstraction of what loops remember about the symbols of a composition.

A condition over flags, counters, counts and universal statements about the symbols of one composition is turned into a deterministic automaton that
reads compositions as words over ( T V ) -- start of a component, terminal, variable, end of a component -- and is compared, by a product construction,
with the automaton the rule asks for.  Counters are saturated at 3.  Raises Undecided when a part of the condition depends on anything else."""
from terms import *
from pat import *

TOP = 3


class Undecided(Exception):
    pass


class Words:
    def __init__(self, view, comp):
        """comp: pattern for the list of components"""
        self.v, self.comp = view, comp
        self.X = IX(IX(comp, I("_c")), I("_s"))
        self.levels = {}
        self.loops, self.counts, self.alls = [], [], []
        self.seen = set()

    # -------------------------------------------------------- which parts are remembered
    def collect(self, t):
        if t in self.seen:
            return
        self.seen.add(t)
        if t.op == "loop":
            L = self.v.loops.get(t)
            if not L or L["init"] is None:
                raise Undecided(show(t))
            self.loops.append(t)
            self.collect(L["init"])
            for b in L["back"]:
                self.collect(b)
            return
        if is_count(t):
            self.counts.append(t)
            for k in t.a[1][0].a[1]:
                for p, _ in k:
                    self.collect(p)
            return
        if t.op == "all":
            self.alls.append(t)
            self.collect(t.a[0])
            for k in t.a[1]:
                for p, _ in k:
                    self.collect(p)
            return
        if t.op == "phi":
            for c, x in t.a[0]:
                for k in c:
                    for p, _ in k:
                        self.collect(p)
                self.collect(x)
            return
        if t.op == "len" or grown(t):
            self.collect(t.a[0] if t.op == "len" else t.a[0].a[1][0])
            return
        if t.op in ("not", "and", "or", "eq", "lt", "add", "sub"):
            for x in t.a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, T):
                        self.collect(y)

    def level(self, t):
        """what one round of the loop of t is about"""
        h = t.a[:2]
        if h not in self.levels:
            r = "other"
            for u, L in self.v.loops.items():
                if u.a[:2] != h:
                    continue
                for c in L["backc"]:
                    for k in self.v.rwc(c):
                        for p, x in k:
                            if x and first(MORE(IX(self.comp, I("_c")), I("_s")), p):
                                r = "symbol"
                            elif x and first(MORE(self.comp, I("_c")), p) and r != "symbol":
                                r = "component"
            self.levels[h] = r
        return self.levels[h]

    def inner(self, t):
        """the names of a variable in the loops inside, innermost first: what is remembered is what was remembered last"""
        out = [t]
        for u in self.loops:
            L = self.v.loops[u]
            if u is not t and L["init"] is t and all(b is u for b in self.v.loops[t]["back"]) and t in self.v.loops:
                out = self.inner(u) + out
        return out

    # -------------------------------------------------------- values
    def val(self, t, st, sym):
        """value of a term in a state, at a symbol or between symbols (None)"""
        if t.op == "c":
            return t.a[1]
        if t.op == "loop":
            for u in self.inner(t):
                if u in st:
                    return st[u]
            raise Undecided(show(t))
        if is_count(t) or t.op == "all":
            if t in st:
                return st[t]
            raise Undecided(show(t))
        if t.op == "not":
            return not self.val(t.a[0], st, sym)
        if t.op in ("and", "or"):
            a, b = (self.val(x, st, sym) for x in t.a)
            return a and b if t.op == "and" else a or b
        if t.op == "eq":
            a, b = (self.val(x, st, sym) for x in t.a)
            if max_(a) and max_(b):
                raise Undecided("large number")
            return a == b
        if t.op == "lt":
            a, b = (self.val(x, st, sym) for x in t.a)
            if max_(a) and max_(b):
                raise Undecided("large number")
            return a < b
        if t.op == "add":
            s = 0
            for x in t.a[0]:
                s += self.val(x, st, sym)
            return min(s, TOP)
        if t.op == "len":                                          # a list that only grows stands for its length
            return self.val(t.a[0], st, sym)
        if grown(t):
            return min(self.val(t.a[0].a[1][0], st, sym) + 1, TOP)
        if empty(t):
            return 0
        if t.op == "pos":
            for key in ("s", "c"):
                if t in self.positions[key]:
                    return st["#" + key]
            raise Undecided(show(t))
        if t.op == "phi":
            vs, un = set(), False
            for c, x in t.a[0]:
                r = self.cond(c, st, sym)
                if r is not False:
                    vs.add(self.val(x, st, sym))
                    un = un or r is None
            if len(vs) != 1:
                raise Undecided(show(t))
            return vs.pop()
        if t.op == "is":
            if sym is not None and first(self.X, self.v.rw(t.a[0])):
                return (t.a[1] == "Var") == (sym == "V")
        if t.op == "isv":
            if sym is not None and first(self.X, self.v.rw(t.a[0])):
                return (t.a[1] == "Var") == (sym == "V")
        raise Undecided(show(t))

    def cond(self, c, st, sym):
        """True, False, or None where it depends on something else"""
        r = False
        for k in c:
            x = True
            for p, v in k:
                try:
                    y = bool(self.val(p, st, sym)) == v
                except Undecided:
                    y = None
                if y is False:
                    x = False
                    break
                if y is None:
                    x = None
            if x is True:
                return True
            if x is None:
                r = None
        return r

    def exact(self, c, st, sym, ignore):
        """the condition, without the literals that only say where we are"""
        for k in c:
            if all(ignore(p, v) or bool(self.val(p, st, sym)) == v for p, v in k):
                return True
        return False

    # -------------------------------------------------------- transitions
    def enter(self, st, level):
        """start of the loops of a level: initial values"""
        new = dict(st)
        for t in self.loops:
            if self.level(t) == level:
                L = self.v.loops[t]
                if level == "symbol" and not self.nested(t):
                    continue                                   # one loop over all symbols of all components
                new[t] = self.val(L["init"], st, None)
        return new

    def nested(self, t):
        """is it a loop over the symbols of one component, rather than over those of all components"""
        h = t.a[:2]
        for u, L in self.v.loops.items():
            if u.a[:2] == h:
                for k in self.v.rwc(L.get("c", TRUE)):
                    for p, x in k:
                        if x and first(MORE(self.comp, I("_c")), p):
                            return True
        return False

    def start(self):
        return self.begin({t: self.val(self.v.loops[t]["init"], {}, None) for t in self.loops if self.level(t) == "other"})

    def begin(self, outer):
        """the start of a composition"""
        st = {"#c": 0, "#s": 0}
        st.update(outer)
        for t in self.counts:
            st[t] = 0
        for t in self.alls:
            st[t] = True
        todo = [t for t in self.loops if self.level(t) == "component" or self.level(t) == "symbol" and not self.nested(t)]
        for _ in range(len(todo) + 1):
            for t in list(todo):
                try:
                    st[t] = self.val(self.v.loops[t]["init"], st, None)
                    todo.remove(t)
                except Undecided:
                    pass
        if todo:
            raise Undecided(show(todo[0]))
        return st

    def step(self, st, a):
        if a == "|":
            return self.begin({t: self.back(t, st, None) for t in self.loops if self.level(t) == "other"})
        if a == "(":
            new = self.enter(st, "symbol")
            new["#s"] = 0
            return new
        if a == ")":
            new = dict(st)
            for t in self.loops:
                if self.level(t) == "component":
                    new[t] = self.back(t, st, None)
            new["#c"] = min(TOP, st["#c"] + 1)
            return {k: x for k, x in new.items() if not (isinstance(k, T) and k.op == "loop" and self.level(k) == "symbol" and self.nested(k))}
        new = dict(st)
        for t in self.loops:
            if self.level(t) == "symbol":
                new[t] = self.back(t, st, a)
        for t in self.counts:
            if self.over(t.a[1][0].a[1], st, a):
                new[t] = min(TOP, st[t] + 1)
        for t in self.alls:
            if self.over(t.a[1], st, a) and not self.val(t.a[0], st, a):
                new[t] = False
        new["#s"] = min(TOP, st["#s"] + 1)
        return new

    def over(self, c, st, a):
        """is the symbol one of those that are counted"""
        def place(p, v):
            return v and bool(first(ALT(MORE(self.comp, I("_c")), MORE(IX(self.comp, I("_c")), I("_s"))), p)) or not v and p.op == "more"
        for k in c:
            if not any(v and first(MORE(IX(self.comp, I("_c")), I("_s")), p) for p, v in k):
                raise Undecided(showc(c))
        return self.exact(c, st, a, place)

    def back(self, t, st, a):
        L = self.v.loops[t]
        vs = set()
        for b, c in zip(L["back"], L["backc"]):
            if self.cond(c, st, a) is not False:
                vs.add(self.val(b, st, a))
        if len(vs) != 1:
            raise Undecided(show(t))
        return vs.pop()

    # -------------------------------------------------------- comparison
    def differs(self, final, spec, reject=None):
        """a shortest composition for which `final` (DNF at the end) or `reject` (DNF at some symbol) does not say what spec(word) says; None if there is none.
        spec: (start, step(state, letter) -> state, accepts(state))"""
        for c in (final, reject or FALSE):
            for k in c:
                for p, _ in k:
                    self.collect(p)
        self.positions = {"s": set(), "c": set()}
        for L in self.v.loops.values():
            for c in L["backc"]:
                self.note(self.v.rwc(c))
        for t in self.counts:
            self.note(t.a[1][0].a[1])
        for c in (final, reject or FALSE):
            self.note(c)

        def place(p, v):
            return p.op == "more" or p.op == "lt" and p.a[0].op == "pos" and p.a[1].op == "len"
        q0, nxt, acc = spec
        st = self.start()
        todo = [(st, q0, False, False, "")]
        seen = set()
        while todo:
            st, q, inside, hit, w = todo.pop(0)
            key = (frozenset(st.items()), q, inside, hit)
            if key in seen or len(seen) > 4000:
                continue
            seen.add(key)
            if not inside:
                got = hit or self.exact(final, st, None, place)
                if got != acc(q):
                    return w
            more = ("(", "|") if not hit and any(self.level(t) == "other" for t in self.loops) else ("(",)
            for a in more if not inside else ("T", "V", ")"):
                h = hit
                if a in "TV" and reject:
                    h = h or self.exact(reject, st, a, place)
                todo.append((st if h else self.step(st, a), nxt(q, a) if a != "|" else q0, a not in ")|", h, w + a))
        return None

    def note(self, c):
        for k in c:
            for p, v in k:
                e = first(MORE(IX(self.comp, I("_c")), I("_s")), p) if p.op == "more" else None
                if e:
                    self.positions["s"].add(p.a[1])
                    continue
                e = first(MORE(self.comp, I("_c")), p) if p.op == "more" else None
                if e:
                    self.positions["c"].add(p.a[1])


def empty(t):
    return t.op == "call" and t.a[0].split("::")[-1] in ("new", "with_capacity") and "Vec" in t.a[0] or t.op == "array" and not t.a


def grown(t):
    return t.op == "eff" and t.a[1] == 0 and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] in ("push", "push_back") and len(t.a[0].a[1]) == 2


def max_(x):
    return isinstance(x, int) and not isinstance(x, bool) and x >= TOP


def is_count(t):
    return t.op == "call" and t.a[0] == "std::iter::Iterator::count" and t.a[1] and t.a[1][0].op == "coll"
