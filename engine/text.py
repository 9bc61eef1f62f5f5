"""The text that a function writes: pieces of literal text, values that are shown, repetitions and choices, recovered from the values of
strings and formatters.

pieces: ("lit", text) | ("show", value, how) | ("rep", condition, pieces, separator) | ("alt", [(condition, pieces)]) | ("opaque", value)"""
from terms import *
from pat import *

EMPTY = ("new", "default", "with_capacity")
STR = ("push_str", "write_str", "push", "write_char", "pad", "add_assign", "add")
SAME = ("as_str", "to_string", "to_owned", "into", "from", "as_ref", "borrow", "deref", "clone", "into_owned", "into_string", "into_boxed_str")


def decode(b):
    """the pieces of a format template: literal text and placeholders (index of the argument or None for the next one, plain or not)"""
    out, i = [], 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(b[i:i + n].decode("utf8", "replace"))
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + k].decode("utf8", "replace"))
            i += 2 + k
        else:
            arg, spec = None, []
            if n & 1:
                spec.append(b[i:i + 4])
                i += 4
            if n & 2:
                spec.append(b[i:i + 2])
                i += 2
            if n & 4:
                spec.append(b[i:i + 2])
                i += 2
            if n & 8:
                arg = b[i] | b[i + 1] << 8
                i += 2
            out.append((arg, tuple(spec)))
    return out


def raw_bytes(t):
    v = t.a[1] if t.op == "c" else None
    if isinstance(v, bytes):
        return v
    if isinstance(v, str) and v[:2] in ("b'", 'b"'):
        import ast
        return ast.literal_eval(v)
    return None


class Text:
    def __init__(self, view):
        self.v, self.e = view, view.e
        self.depth = 0

    def norm(self, ps):
        out = []
        for p in ps:
            if p[0] == "lit":
                if not p[1]:
                    continue
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + p[1])
                    continue
            out.append(p)
        return out

    def args(self, t):
        """the text of format arguments"""
        if t.op == "call":
            n = t.a[0].split("::")[-1]
            if n == "from_str" and "Arguments" in t.a[0] and t.a[1][0].op == "c":
                return [("lit", t.a[1][0].a[1])]
            if n == "new" and "Arguments" in t.a[0] and len(t.a[1]) == 2 and t.a[1][1].op == "array":
                b = raw_bytes(t.a[1][0])
                if b is None:
                    return [("opaque", t)]
                out, k = [], 0
                for p in decode(b):
                    if isinstance(p, str):
                        out.append(("lit", p))
                        continue
                    i = k if p[0] is None else p[0]
                    k = i + 1
                    if i >= len(t.a[1][1].a):
                        return [("opaque", t)]
                    a = t.a[1][1].a[i]
                    how = a.a[0].split("::")[-1] if a.op == "call" else "?"
                    if how == "new_display" and not p[1]:
                        out += self.string(a.a[1][0])
                    else:
                        out.append(("show", self.v.rw(a.a[1][0]) if a.op == "call" else a, how + ("".join(map(repr, p[1])))))
                return out
        return [("opaque", t)]

    def string(self, t):
        """the text of a value that is shown or appended"""
        t0 = t
        f = self.flag(t)
        if f and all(isinstance(x.a[1], str) for x in f):
            r = mk("first", t.a[1])
            return self.choice([(lit(r), self.string(f[0])), (lit(r, False), self.string(f[1]))])
        if t.op == "c" and isinstance(t.a[1], str):
            return [("lit", t.a[1])] if t.a[1] else []
        if t.op == "call":
            n = t.a[0].split("::")[-1]
            a = t.a[1]
            if n in EMPTY and not a or n == "with_capacity":
                return []
            if n == "format" and len(a) == 1:
                return self.args(a[0])
            if n in SAME and len(a) == 1:
                return self.string(a[0])
            if n in ("join", "concat") and a:
                sep = a[1].a[1] if len(a) == 2 and a[1].op == "c" else "" if len(a) == 1 else None
                c = self.v.rw(a[0])
                if sep is not None:
                    return self.seq(c, sep, t)
            if n == "add" and len(a) == 2:
                return self.string(a[0]) + self.string(a[1])
        if t.op in ("coll", "colls") and (t.a[3] if t.op == "coll" else t.a[1]) == "String":
            return self.seq(self.v.rw(t), "", t)
        if t.op == "add" and isinstance(t.a[0], tuple):
            r = []
            for x in t.a[0]:
                r += self.string(x)
            return r
        if t.op in ("eff", "loop", "phi"):
            r = self.state(t, None)
            if not any(p[0] == "opaque" for p in r):
                return r
        return [("show", self.v.rw(t0), "new_display")]

    def seq(self, c, sep, t):
        if c.op == "cat" and sep == "":
            return self.seq(c.a[0], sep, t) + self.seq(c.a[1], sep, t)
        if c.op == "coll":
            return [("rep", c.a[1], self.norm(self.string(c.a[0])), sep)]
        if c.op == "array":
            out = []
            for i, x in enumerate(c.a):
                out += ([("lit", sep)] if i else []) + self.string(x)
            return out
        return [("rep", lit(mk("more", c, mk("pos", "join"))), [("show", idx(c, mk("pos", "join")), "new_display")], sep)]

    def state(self, t, stop):
        """what has been written to a string or formatter since stop"""
        self.depth += 1
        try:
            if self.depth > 60:
                return [("opaque", t)]
            return self.norm(self.state1(t, stop))
        finally:
            self.depth -= 1

    def state1(self, t, stop):
        if t is stop or t.op == "arg" and stop is None:
            return []
        if t.op == "eff" and t.a[0].op == "call":
            c = t.a[0]
            n = c.a[0].split("::")[-1]
            a = c.a[1]
            i = t.a[1]
            if i < len(a):
                pre = self.state(a[i], stop)
                rest = [x for j, x in enumerate(a) if j != i]
                if n == "write_fmt" and len(rest) == 1:
                    return pre + self.args(rest[0])
                if n in STR and len(rest) == 1:
                    return pre + self.string(rest[0])
                if n == "fmt" and len(rest) == 1:
                    return pre + [("show", self.v.rw(rest[0]), "new_display" if "Display" in c.a[0] else "new_debug")]
                if n in ("reserve", "shrink_to_fit"):
                    return pre
                if n == "extend" and len(rest) == 1:
                    return pre + self.seq(self.v.rw(rest[0]), "", t)
            return [("opaque", t)]
        if t.op == "add" and isinstance(t.a[0], tuple) and t.a[0]:
            r = self.state(t.a[0][0], stop)
            for x in t.a[0][1:]:
                r += self.string(x)
            return r
        if t.op == "call":
            if t.a[0].split("::")[-1] == "add" and len(t.a[1]) == 2:
                return self.state(t.a[1][0], stop) + self.string(t.a[1][1])
            return self.string(t) if stop is None else [("opaque", t)]
        if t.op == "c":
            return self.string(t) if stop is None else [("opaque", t)]
        if t.op == "phi":
            alts_ = []
            for c, x in t.a[0]:
                c = self.first(went_well(self.v.rwc(c)))
                if c:
                    alts_.append((c, self.state(x, stop)))
            return self.choice(alts_)
        if t.op == "loop":
            L = self.e.loops.get(t)
            if not L or L["init"] is None:
                return [("opaque", t)]
            pre = self.state(L["init"], stop)
            if all(b is t for b in L["back"]):
                return pre
            al = []
            for b, c in zip(L["back"], L["backc"]):
                c = self.first(went_well(strip_(self.v.rwc(c), self.v.rwc(L.get("c", TRUE)))))
                if c:
                    al.append((c, self.state(b, t)))
            if not al:
                return pre
            cs = [k for c, _ in al for k in c]
            common = frozenset.intersection(*cs)
            rnd = frozenset(l for l in common if l[0].op in ("more", "lt") and l[1])
            body = self.choice([(frozenset(k - common for k in c), x) for c, x in al]) if len(al) > 1 else al[0][1]
            body = self.guards(body, common)
            body, sep = self.separator(body, rnd)
            if self.v.broken(L):
                # left early; before the last round only, if every other round is told to be not the last one
                return pre + [("opaque", t) if all(self.not_last(k, rnd) for k in cs) else ("cut", frozenset([frozenset(l for l in common if not done(l))]), body, sep)]
            return pre + [("rep", frozenset([frozenset(l for l in common if not done(l))]), body, sep)]
        return [("opaque", t)]

    def guards(self, ps, common):
        """without the conditions of the round"""
        out = []
        for p in ps:
            if p[0] == "alt":
                q = [(frozenset(k - common for k in c), self.guards(x, common)) for c, x in p[1]]
                out.append(("alt", q))
            else:
                out.append(p)
        return out

    def choice(self, al):
        if not al:
            return []
        texts = [x for _, x in al]
        if all(x == texts[0] for x in texts):
            return texts[0]
        n = 0
        while all(len(x) > n and x[n] == texts[0][n] for x in texts):
            n += 1
        pre = texts[0][:n]
        al = [(c, x[n:]) for c, x in al]
        lits_ = [x[0][1] if x and x[0][0] == "lit" else "" for _, x in al]
        k = 0                                   # literal text that all of them start with
        while all(len(s) > k and s[k] == lits_[0][k] for s in lits_):
            k += 1
        if k:
            pre = pre + [("lit", lits_[0][:k])]
            al = [(c, self.norm([("lit", x[0][1][k:])] + x[1:])) for c, x in al]
        m = 0
        while all(len(x) > m and x[-1 - m] == al[0][1][-1 - m] for _, x in al):
            m += 1
        post = al[0][1][len(al[0][1]) - m:] if m else []
        al = [(c, x[:len(x) - m]) for c, x in al]
        merged = {}
        for c, x in al:
            key = repr(x)
            merged[key] = (c_or(merged[key][0], c), x) if key in merged else (c, x)
        return pre + [("alt", list(merged.values()))] + post

    def flag(self, t):
        """a variable of a loop that has one constant value in the first round and another one in all others"""
        L = self.e.loops.get(t) if t.op == "loop" else None
        if L and L["init"] is not None and L["init"].op == "c" and L["back"] and all(b.op == "c" and b is L["back"][0] for b in L["back"]) and \
                L["back"][0] is not L["init"]:
            return L["init"], L["back"][0]

    def first(self, c):
        out = set()
        for k in c:
            n = []
            for p, v in k:
                f = self.flag(p)
                if f and isinstance(f[0].a[1], bool):
                    p, v = mk("first", p.a[1]), v == f[0].a[1]
                n.append((p, v))
            out.add(frozenset(n))
        return frozenset(out)

    def separator(self, body, rnd):
        """text between two rounds: text that is left out in the first or last one"""
        body = self.norm(body)
        for at in ("first", "last"):
            if len(body) < 2:
                break
            p = body[0] if at == "first" else body[-1]
            if p[0] != "alt" or len(p[1]) != 2:
                continue
            (c1, x1), (c2, x2) = p[1]
            if x1 and not x2:
                on, sep = c1, x1
            elif x2 and not x1:
                on, sep = c2, x2
            else:
                continue
            if len(sep) == 1 and sep[0][0] == "lit" and self.inner(on, rnd, at):
                return (body[1:] if at == "first" else body[:-1]), sep[0][1]
        return body, ""

    def not_last(self, k, rnd):
        return any(self.inner(frozenset([frozenset([l])]), rnd, "last") for l in k if l not in rnd)

    def inner(self, c, rnd, at):
        """does the condition say that the round is not the first / the last one"""
        if len(c) != 1:
            return False
        k = [l for l in next(iter(c)) if not done(l) and l not in rnd]
        if len(k) != 1:
            return False
        p, v = k[0]
        for m, _ in rnd:
            x, i = (m.a[0], m.a[1]) if m.op == "more" else (None, m.a[0])
            end = length(x) if x is not None else m.a[1]
            if at == "first":
                if p.op == "first" and not v:
                    return True
                if v and p is lt(const(0), i) or not v and p.op == "eq" and p is eq(i, const(0)):
                    return True
            else:
                if v and (p is lt(add(i, const(1)), end) or x is not None and p is mk("more", x, add(i, const(1)))):
                    return True
                if not v and p in (eq(add(i, const(1)), end), eq(i, sub(end, const(1)))):
                    return True
                if v and p.op == "is" and p.a[0].op == "call" and p.a[0].a[0].endswith("peek") and p.a[1] == "Some" and x is not None and p.a[0].a[1][0] is x:
                    return True
                if v and p is lt(i, sub(end, const(1))):
                    return True
        return False


def done(l):
    return l[0].op == "more" and not l[1]


def strip_(cond, entry):
    out = set()
    for k in cond:
        best = None
        for e in entry:
            if e <= k and (best is None or len(e) > len(best)):
                best = e
        out.add(k - best if best else k)
    return frozenset(out)


def went_well(c):
    """without the remarks that writing did not fail"""
    out = set()
    for k in c:
        if not failed(k):
            out.add(frozenset(l for l in k if not (l[0].op == "is" and l[0].a[1] == "Ok" and l[1] and writes(l[0].a[0])) and
                              not (l[0].op == "all" and l[1] and l[0].a[0].op == "isv" and l[0].a[0].a[1] == "Ok" and writes(l[0].a[0].a[0]))))
    return frozenset(out)


def failed(k):
    """did writing fail on the way"""
    return any(p.op == "is" and p.a[1] == "Ok" and not v and writes(p.a[0]) for p, v in k)


def writes(t):
    return t.op == "call" and t.a[0].split("::")[-1] in ("write_fmt", "write_str", "write_char", "fmt", "pad") or \
        t.op == "phi" and all(writes(x) or x.op == "adt" for _, x in t.a[0])


def text_of(ctx, f, view=None):
    """the text written by an implementation of Display or Debug"""
    v = view or ctx.view(f)
    return Text(v).state(v.e.final_value(mk("arg", 2, f["locals"][2]["name"] or "")), None)


def text_of_value(view, raw):
    """the text of a string value"""
    x = Text(view)
    return x.norm(x.string(raw))


def showt(ps):
    out = []
    for p in ps:
        if p[0] == "lit":
            out.append(repr(p[1]))
        elif p[0] == "show":
            out.append(("<%s>" if p[2] == "new_display" else p[2] + "<%s>") % show(p[1], 6))
        elif p[0] in ("rep", "cut"):
            out.append("{%s |%s| for %s}" % (showt(p[2]), p[3], showc(p[1], 6)))
        elif p[0] == "alt":
            out.append("(" + " / ".join("%s if %s" % (showt(x), showc(c, 6)) for c, x in p[1]) + ")")
        else:
            out.append("?%s?" % show(p[1], 4))
    return " ".join(out)


# ---------------------------------------------------------------- what a text should be
def D(p):
    """a value that is displayed"""
    return ("show", p)


def REP(lits, items, sep=""):
    return ("rep", lits, items, sep)


def CHOICE(*cs):
    """cases (literals, items), each of them present"""
    return ("alt", cs)


def match_text(items, ps, env):
    """items: strings, D(..), REP(..), CHOICE(..), or a list of possible items; yields environments"""
    if not items:
        if not ps:
            yield env
        return
    it = items[0]
    if isinstance(it, list):
        for alt in it:
            yield from match_text(list(alt) + items[1:], ps, env)
        return
    if isinstance(it, str):
        if it == "":
            yield from match_text(items[1:], ps, env)
        elif ps and ps[0][0] == "lit":
            s = ps[0][1]
            if s == it:
                yield from match_text(items[1:], ps[1:], env)
            elif s.startswith(it):
                yield from match_text(items[1:], [("lit", s[len(it):])] + ps[1:], env)
        return
    if not ps or ps[0][0] != it[0]:
        return
    p = ps[0]
    if it[0] == "show":
        if p[2] == "new_display":
            for e in match(it[1], p[1], env):
                yield from match_text(items[1:], ps[1:], e)
    elif it[0] == "rep":
        if p[3] == it[3]:
            for e in dnf(it[1], [(MORE(ANY, ANY), False)], p[1], env):
                for e2 in match_text(it[2], p[2], e):
                    yield from match_text(items[1:], ps[1:], e2)
    elif it[0] == "alt":
        if len(p[1]) == len(it[1]):
            def go(cs, left, e):
                if not cs:
                    yield e
                    return
                for j, (c, x) in enumerate(left):
                    for e2 in dnf(cs[0][0], [(MORE(ANY, ANY), False)], c, e):
                        for e3 in match_text(cs[0][1], x, e2):
                            yield from go(cs[1:], left[:j] + left[j + 1:], e3)
            for e in go(list(it[1]), list(p[1]), env):
                yield from match_text(items[1:], ps[1:], e)


def first_text(items, ps, env=None):
    for e in match_text(list(items), list(ps), dict(env or {})):
        return e
    return None
