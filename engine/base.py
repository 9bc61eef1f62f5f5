"""What the rules share: access to summaries, obligations, and the bookkeeping of evidence."""
import re
from terms import *
from ev import Ev, some, NONE, ok, err, OPT, RES, Budget
from facts import Prog, Unanalysable
from view import View


class Ctx:
    def __init__(self, prop, prog, tier):
        self.prop, self.p, self.tier = prop, prog, tier
        self.obs = []           # (key, ok, text, where)
        self.evs = {}
        self.analysed = set()
        self.sites = 0
        self.notes = []

    # ---------------------------------------------------------------- obligations
    def ob(self, key, good, text, f=None, line=None):
        where = ""
        if f is not None:
            where = "%s:%s (%s)" % (f["file"], line or f["line"], f["nname"])
        self.obs.append((key, bool(good), text, where))
        return bool(good)

    def undecided(self, key, why, f=None):
        """part of a rule that does not apply to the code as it is written; reported, but not an alarm"""
        self.notes.append((key, why, "%s:%s (%s)" % (f["file"], f["line"], f["nname"]) if f else ""))

    def missing(self, what):
        if self.p.partial is not None:
            # only the part that is built here type-checks: what the rest does cannot be said
            return self.undecided("anchor:" + what, "not found in the part of the program that type-checks")
        return self.ob("anchor:" + what, False, "the program part this rule is about is not there any more: " + what)

    # ---------------------------------------------------------------- program parts
    def fns(self, pattern, **kw):
        return [f for f in self.p.find(pattern) if not f.get("derived")]

    def fn(self, pattern, quiet=False):
        l = self.fns(pattern)
        if len(l) != 1:
            if not quiet:
                self.missing("function %s (%d found)" % (pattern, len(l)))
            return None
        return l[0]

    def methods(self, self_ty, trait, name):
        """methods `name` of impls of `trait` (regex; None for inherent impls) for types matching `self_ty`"""
        out = []
        for f in self.p.fns.values():
            if f["kind"] == "closure" or f.get("derived") or f["nname"].split("::")[-1] != name or "self_ty" not in f:
                continue
            if not re.search(self_ty, f["self_ty"]):
                continue
            t = f.get("trait_ref")
            if (trait is None) != (t is None) or (trait is not None and not re.search(trait, t.split(" as ", 1)[1])):
                continue
            out.append(f)
        return out

    def method(self, self_ty, trait, name, quiet=False):
        fs = self.methods(self_ty, trait, name)
        if len(fs) != 1:
            if not quiet:
                self.missing("%s::%s%s (%d found)" % (self_ty, name, " of " + trait if trait else "", len(fs)))
            return None
        return fs[0]

    def ev(self, f, **kw):
        key = (f["id"], tuple(sorted((k, str(v)) for k, v in kw.items())))
        e = self.evs.get(key)
        if e is None:
            e = Ev(self.p, **kw).run(f["id"])
            e.f = f
            e.kw = kw  # the key has the address of a function
            self.evs[key] = e
            self.analysed |= e.inlined
            self.sites += sum(1 for x in e.events if x.kind == "call")
        return e


    def view_closure(self, f, clo, args, **kw):
        """the view of a closure that appears as a value in the summary of f"""
        e = Ev(self.p, **kw).run_closure(clo, args)
        e.f = f
        self.analysed |= e.inlined
        self.sites += sum(1 for x in e.events if x.kind == "call")
        return View(e)

    def view(self, f, **kw):
        key = ("v", f["id"], tuple(sorted((k, str(v)) for k, v in kw.items())))
        if key not in self.evs:
            self.evs[key] = View(self.ev(f, **kw))
        return self.evs[key]


# -------------------------------------------------------------------- helpers on summaries
def paths(e):
    """[(conjunction, value)] of the entry function: one entry per way to return"""
    out = []
    for c, v in e.returns():
        for k in c:
            out.append((k, v))
    return out


def is_call(t, *suffixes):
    return isinstance(t, T) and t.op == "call" and any(t.a[0] == s or t.a[0].endswith("::" + s) for s in suffixes)


def is_adt(t, name, var=None):
    return isinstance(t, T) and t.op == "adt" and t.a[0].split("::")[-1] == name and (var is None or t.a[1] == var)


def is_some(t):
    return t.op == "adt" and t.a[0] == OPT and t.a[1] == "Some"


def is_none(t):
    return t.op == "adt" and t.a[0] == OPT and t.a[1] == "None"


def is_ok(t):
    return t.op == "adt" and t.a[0] == RES and t.a[1] == "Ok"


def is_err(t):
    return t.op == "adt" and t.a[0] == RES and t.a[1] == "Err"


def payload(t):
    return t.a[2][0][1]


def fld(t, *names):
    for n in names:
        if ":" in n:
            v, n = n.split(":")
            t = field(t, n, v)
        else:
            t = field(t, n)
    return t


def path_of(t):
    """(root, [field names]) of a chain of projections"""
    p = []
    while t.op == "f":
        p.append(t.a[1])
        t = t.a[0]
    return t, p[::-1]


def calls_in(t, *suffixes):
    return [x for x in walk(t) if is_call(x, *suffixes)]


def holds(conj, p, v=True):
    return (p, v) in conj


def pos(conj):
    return [p for p, v in conj if v]


def neg(conj):
    return [p for p, v in conj if not v]


def compatible(c1, c2):
    return bool(c_and(frozenset([c1]), frozenset([c2])))


def events(e, kind, *suffixes):
    return [x for x in e.events if x.kind == kind and (not suffixes or any(x.path == s or x.path.endswith("::" + s) for s in suffixes))]


def same(c):
    """a condition without duplicate spelling"""
    return frozenset(c)


# -------------------------------------------------------------------- idioms
def fresh(p, v, key=None):
    """does the literal (p, v) say that a key is new in (True) / already in (False) a container; None if it says neither"""
    if p.op == "is" and p.a[0].op == "call":
        c = p.a[0]
        n = c.a[0].split("::")[-1]
        if len(c.a[1]) >= 2 and (key is None or c.a[1][1] is key):
            if n in ("insert", "get", "get_mut", "remove") and p.a[1] == "Some" and "Map" in c.a[0] or n in ("get", "replace", "take") and "Set" in c.a[0] and p.a[1] == "Some":
                return not v
            if n == "entry":
                return v if p.a[1] == "Vacant" else not v
    if p.op == "call":
        n = p.a[0].split("::")[-1]
        if len(p.a[1]) >= 2 and (key is None or p.a[1][1] is key):
            if n == "insert" and "Set" in p.a[0]:
                return v
            if n in ("contains_key", "contains") and ("Map" in p.a[0] or "Set" in p.a[0]):
                return not v
    return None


def bools(view):
    """(conditions under which a boolean function returns true, ... false)"""
    t, f = FALSE, FALSE
    for c, v in view.returns():
        if v.op == "not" and v.a[0].op == "all" or v.op == "all":
            a, flip = (v.a[0], True) if v.op == "not" else (v, False)
            bad = c_and(c_and(c, a.a[1]), truth(a.a[0], False))
            good = FALSE
            for k in a.a[1]:
                good = c_or(good, frozenset([frozenset((p, not x) for p, x in k if p.op == "more")]))
            good = c_and(c, good)
            t, f = (c_or(t, bad), c_or(f, good)) if flip else (c_or(t, good), c_or(f, bad))
        else:
            t = c_or(t, c_and(c, truth(v, True)))
            f = c_or(f, c_and(c, truth(v, False)))
    return t, f


def expand(c):
    """a condition with every failed `all` replaced by its witness: some element for which the predicate does not hold"""
    out = FALSE
    for k in c:
        out = c_or(out, expand1(k))
    return out


def expand1(k):
    fails = [p for p, v in k if p.op == "all" and not v]
    if not fails:
        return frozenset([k])
    a = fails[0]
    rest = frozenset(k - {(a, False)})
    return expand(c_and(frozenset([rest]), c_and(a.a[1], truth(a.a[0], False))))


def unroll(c):
    """a condition with every `all` written as the loop that stops at the first failure: failed = a witness was found, else the end was reached"""
    out = FALSE
    for k in expand(c):
        alls = [p for p, v in k if p.op == "all" and v and all(any(q.op == "more" for q, _ in kk) for kk in p.a[1])]
        k2 = set((p, v) for p, v in k if p not in alls)
        for a in alls:
            for kk in a.a[1]:
                k2 |= set((q, not v) for q, v in kk if q.op == "more")
        out = c_or(out, frozenset([frozenset(k2)]))
    return out


def cases(t):
    """[(element, conjunction)] of a collection, however it was put together"""
    if t.op == "cat":
        return cases(t.a[0]) + cases(t.a[1])
    if t.op == "phi":
        # the same element may be listed in several alternatives
        by = {}
        for c, x in t.a[0]:
            c = simp(frozenset((p, v) for p, v in k if v or p.op not in ("more", "chain")) for k in c)
            for el, k in cases(x):
                by[el] = c_or(by.get(el, FALSE), c_and(c, frozenset([k])))
        return [(el, k) for el, c in by.items() for k in c]
    if t.op == "eff" and t.a[1] == 0 and t.a[0].op == "call" and len(t.a[0].a[1]) == 2 and t.a[0].a[0].split("::")[-1] in ("extend", "append", "push", "push_back"):
        base, x = t.a[0].a[1]                                # added behind the rest
        one = [(x, frozenset())] if t.a[0].a[0].split("::")[-1].startswith("push") else cases(x)
        rest = cases(base)
        return rest + one if one and rest else []
    ups = [(t.a[0], t.a[1])] if t.op == "coll" else list(t.a[0]) if t.op == "colls" else []
    out = []
    for el, c in ups:
        for c2, x in alts(el):
            for k in c_and(c, c2):
                out.append((x, k))
    return out


def kind_of_coll(t):
    return t.a[3] if t.op == "coll" else t.a[1] if t.op == "colls" else kind_of_coll(t.a[0]) if t.op == "cat" else \
        kind_of_coll(t.a[0][0][1]) if t.op == "phi" and len({kind_of_coll(x) for _, x in t.a[0]}) == 1 else ""


def nothing(r):
    """the literal saying that a call returned nothing"""
    (k,) = variant(r, "None")
    (l,) = k
    return l


def empty_lit(p, v, what=None):
    """literal saying that a container is empty (True) / not empty (False)"""
    if p.op == "eq" and any(x is const(0) for x in p.a):
        o = [x for x in p.a if x is not const(0)]
        if o and o[0].op == "len" and (what is None or what(o[0].a[0])):
            return v
    if p.op == "lt" and p.a[0] is const(0) and p.a[1].op == "len" and (what is None or what(p.a[1].a[0])):
        return not v
    return None


class Unknown(Exception):
    pass


def cmp_value(t, env):
    """outcome (-1, 0, 1, None) of a term of type Ordering or Option<Ordering>; env(a, b) gives the outcome of comparing a with b"""
    if t.op in ("cmp", "pcmp"):
        a, b = t.a
        if a.op == b.op == "tuple" and len(a.a) == len(b.a) > 0:
            for x, y in zip(a.a, b.a):
                r = cmp_value(mk(t.op, x, y), env)
                if r != 0:
                    return r
            return 0
        return env(a, b)
    if t.op == "reverse":
        r = cmp_value(t.a[0], env)
        return r if r is None else -r
    if t.op == "f" and t.a[1] == "0" and t.a[2] == "Some":
        return cmp_value(t.a[0], env)
    if t.op == "adt":
        if t.a[1] in ("Less", "Equal", "Greater"):
            return {"Less": -1, "Equal": 0, "Greater": 1}[t.a[1]]
        if t.a[1] == "None":
            return None
        if t.a[1] == "Some":
            return cmp_value(payload(t), env)
    if t.op == "phi":
        for c, x in t.a[0]:
            if cmp_cond(c, env):
                return cmp_value(x, env)
    raise Unknown(show(t))


def cmp_cond(c, env):
    return any(all(cmp_lit(p, env) == v for p, v in k) for k in c)


def cmp_lit(p, env):
    if p.op == "is":
        r = cmp_value(p.a[0], env)
        if p.a[1] == "Some":
            return r is not None
        return r is not None and r == {"Less": -1, "Equal": 0, "Greater": 1}.get(p.a[1], 9)
    if p.op == "eq":
        if any(x.op in ("cmp", "pcmp") or is_adt(x, "Ordering") or is_some(x) or is_none(x) for x in p.a):
            return cmp_value(p.a[0], env) == cmp_value(p.a[1], env)
        return env(p.a[0], p.a[1]) == 0
    if p.op == "lt":
        return env(p.a[0], p.a[1]) == -1
    raise Unknown(show(p))
