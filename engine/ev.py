"""Abstract interpretation of MIR over symbolic values (see terms.py).

A function is evaluated once per calling context, block by block in reverse postorder, with values joined at merges
(gated by the syntactic branch conditions) and replaced by loop symbols at loop heads.  Local callees and closures
are evaluated at their call sites, so extracting a helper or rewriting a loop as an iterator chain does not change
what is computed.  Nothing is executed and no paths are enumerated."""
import sys
from terms import *
from facts import norm

sys.setrecursionlimit(20000)
OPT, RES = "core::option::Option", "core::result::Result"


def adt(i, v, *fs):
    return mk("adt", i, v, tuple(fs))


def some(x):
    return adt(OPT, "Some", ("0", x))


NONE = adt(OPT, "None")


def ok(x):
    return adt(RES, "Ok", ("0", x))


def err(x):
    return adt(RES, "Err", ("0", x))


class Event:
    __slots__ = ("kind", "path", "args", "ret", "cond", "fn", "line", "chain", "extra", "callee", "raw")

    def __repr__(self):
        return "%s %s(%s) -> %s  if %s  [%s:%s]" % (
            self.kind, self.path, ", ".join(show(a, 5) for a in self.args), show(self.ret, 3) if self.ret is not None else "",
            showc(self.cond, 5), self.fn, self.line)


class St:
    __slots__ = ("s", "c")

    def __init__(self, s=None, c=TRUE):
        self.s = s if s is not None else {}
        self.c = c

    def copy(self):
        return St(dict(self.s), self.c)

    def set(self, root, path, val):
        d = self.s.get(root)
        d = dict(d) if d else {}
        n = len(path)
        for k in [k for k in d if len(k) >= n and k[:n] == path]:
            del d[k]
        d[path] = val
        self.s[root] = d


def initial(root):
    return root[1] if root[0] == "M" else mk("undef")


def project(v, e):
    if isinstance(e, tuple):
        if e[0] == "[]":
            return idx(v, e[1])
        if e[0] == "[..]":
            return mk("slice", v, e[1], e[2])
        return mk("proj", v, str(e))
    if ":" in e:
        var, name = e.split(":", 1)
        return field(v, name, var)
    return field(v, e)


def apply_upd(v, ups):
    """v with updates [(path, val)]"""
    for p, val in ups:
        v = _upd1(v, p, val)
    return v


def _upd1(v, p, val):
    if not p:
        return val
    e = p[0]
    if v.op == "adt" and isinstance(e, str):
        var, name = e.split(":", 1) if ":" in e else (None, e)
        if var is None or var == v.a[1]:
            fs, hit = [], False
            for n, x in v.a[2]:
                if n == name:
                    fs.append((n, _upd1(x, p[1:], val)))
                    hit = True
                else:
                    fs.append((n, x))
            if hit:
                return mk("adt", v.a[0], v.a[1], tuple(fs))
    if v.op == "tuple" and isinstance(e, str) and e.isdigit() and int(e) < len(v.a):
        l = list(v.a)
        l[int(e)] = _upd1(l[int(e)], p[1:], val)
        return _mkt(l)
    if v.op == "upd":
        base, ups = v.a
        ups = tuple((q, x) for q, x in ups if q[: len(p)] != p)
        return mk("upd", base, ups + ((p, val),))
    return mk("upd", v, ((p, val),))


def _mkt(l):
    return mk("tuple", *l)


_hasref = {}


def hasref(t):
    r = _hasref.get(t)
    if r is None:
        r = False
        if t.op in ("ref", "it"):
            r = True
        elif t.op in ("loop", "pos", "c", "arg"):
            r = False
        else:
            for x in _children(t):
                if hasref(x):
                    r = True
                    break
        _hasref[t] = r
    return r


def _children(t):
    stack = list(t.a)
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            stack.extend(x)


SEQ = ("Vec", "VecDeque", "String", "")
_sub = {}


def subst(t, x, y):
    """t with x replaced by y"""
    if t is x:
        return y
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(z, x, y) for z in t)
        if isinstance(t, frozenset):
            return frozenset(subst(z, x, y) for z in t)
        return t
    key = (t, x, y)
    r = _sub.get(key)
    if r is None:
        if t.op in ("c", "arg", "loop", "pos"):
            r = t
        elif t.op == "f":
            r = field(subst(t.a[0], x, y), t.a[1], t.a[2])
        elif t.op == "idx":
            r = idx(subst(t.a[0], x, y), subst(t.a[1], x, y))
        else:
            r = mk(t.op, *[subst(z, x, y) for z in t.a])
        _sub[key] = r
    return r


class Budget(Exception):
    pass


NOINLINE_TRAITS = ("std::clone::Clone", "std::cmp::PartialEq", "std::cmp::PartialOrd", "std::cmp::Ord", "std::cmp::Eq",
                   "std::hash::Hash", "std::fmt::Debug", "std::fmt::Display")
BOXF = ("boxed::Box", "unique::Unique", "non_null::NonNull", "ptr::NonNull", "ptr::Unique")


class Ev:
    def __init__(self, prog, maxdepth=10, noinline=None, budget=400000):
        self.p = prog
        self.maxdepth = maxdepth
        self.noinline = noinline or (lambda f: False)
        self.events = []
        self.loops = {}
        self.loop_mod = {}
        self.stack = []
        self.full = TRUE
        self.budget = budget
        self.inlined = set()
        self.bounded = []
        self.iterlits = set()

    # ------------------------------------------------------------ store
    def read(self, st, root, path):
        d = st.s.get(root)
        if not d:
            v = initial(root)
            for e in path:
                v = project(v, e)
            return v
        best = None
        for k in d:
            if len(k) <= len(path) and path[: len(k)] == k and (best is None or len(k) > len(best)):
                best = k
        if best is None:
            v, rest = initial(root), path
            base = 0
        else:
            v, rest = d[best], path[len(best):]
            base = len(best)
        for i, e in enumerate(rest):
            # updates at an intermediate level through an index
            pre = path[: base + i]
            ups = [(k[len(pre):], x) for k, x in d.items()
                   if len(k) > len(pre) and k[: len(pre)] == pre and isinstance(k[len(pre)], tuple)
                   and isinstance(e, tuple) and k[len(pre)] != e]
            if ups:
                v = mk("upd", v, tuple(ups))
            v = project(v, e)
        deeper = [(k[len(path):], x) for k, x in d.items() if len(k) > len(path) and k[: len(path)] == path
                  and (best is None or len(k) > len(best))]
        if deeper:
            deeper.sort(key=lambda kv: len(kv[0]))
            v = apply_upd(v, deeper)
        return v

    def ptr(self, v):
        """the places a pointer value may denote: [(cond, root, path)]"""
        if v.op == "ref":
            return [(TRUE, v.a[0], v.a[1])]
        if v.op == "phi":
            r = []
            for c, x in v.a[0]:
                for c2, ro, pa in self.ptr(x):
                    r.append((c_and(c, c2), ro, pa))
            return r
        return [(TRUE, ("M", v), ())]

    def load(self, st, v):
        """value behind a (possible) reference"""
        if v.op == "ref":
            return self.read(st, v.a[0], v.a[1])
        if v.op == "phi":
            return phi([(c, self.load(st, x)) for c, x in v.a[0]])
        return self.read(st, ("M", v), ()) if ("M", v) in st.s else v

    def deep(self, st, t, d=0):
        """value with all references replaced by what they refer to"""
        if ("M", t) in st.s and t.op != "ref":
            u = self.read(st, ("M", t), ())
            if u is not t and d < 12:
                return self.deep(st, u, d + 1) if hasref(u) else u
        if not hasref(t) or d > 14:
            return t
        o, a = t.op, t.a
        if o == "ref":
            return self.deep(st, self.read(st, a[0], a[1]), d + 1)

        def rec(x):
            if isinstance(x, T):
                return self.deep(st, x, d + 1)
            if isinstance(x, tuple):
                return tuple(rec(y) for y in x)
            return x

        if o == "adt":
            return mk("adt", a[0], a[1], tuple((n, rec(x)) for n, x in a[2]))
        if o == "phi":
            return phi([(c, rec(x)) for c, x in a[0]])
        if o == "f":
            return field(rec(a[0]), a[1], a[2])
        if o == "idx":
            return idx(rec(a[0]), rec(a[1]))
        if o == "it":
            return mk("itd", *[rec(x) for x in a])
        return mk(o, *[rec(x) for x in a])

    def assign(self, st, targets, val, where):
        if len(targets) == 1:
            c, root, path = targets[0]
            st.set(root, path, val)
            if root[0] == "M":
                self.emit("write", "=", (self.deepval(st, root[1]), self.deep(st, val)), None, st, where, extra=(root, path))
        else:
            for c, root, path in targets:
                old = self.read(st, root, path)
                st.set(root, path, phi([(c, val), (c_not(c), old)]))
                if root[0] == "M":
                    self.emit("write", "=", (root[1], self.deep(st, val)), None, st, where, extra=(root, path))

    def deepval(self, st, t):
        return self.deep(st, t) if hasref(t) else t

    # ------------------------------------------------------------ events
    def emit(self, kind, path, args, ret, st, where, cond=None, extra=None, callee=None):
        e = Event()
        e.kind, e.path, e.args, e.ret = kind, path, args, ret
        c = c_and(self.full, st.c)
        if cond is not None:
            c = c_and(c, cond)
        if not c:
            return None
        e.cond = c
        e.fn, e.line = where
        e.chain = tuple(self.stack)
        e.extra = extra
        e.callee = callee
        e.raw = None
        self.events.append(e)
        if len(self.events) > self.budget:
            raise Budget()
        return e

    # ------------------------------------------------------------ entry
    def run(self, fid, args=None):
        f = self.p.fns[fid]
        if args is None:
            args = [mk("arg", i + 1, f["locals"][i + 1]["name"] or "") for i in range(f["argc"])]
        st = St()
        self.st0 = st
        ret, st2 = self.eval_fn(f, args, st, fid)
        self.final = st2
        self.ret_raw = ret
        self.ret = self.deep(st2, ret)
        return self

    def run_closure(self, clo, args):
        """what a function value does with the given arguments"""
        st = St()
        self.st0 = st
        ret, st2 = self.apply(st, clo, list(args), "clo", None)
        self.final = st2
        self.ret_raw = ret
        self.ret = self.deep(st2, ret)
        return self

    def returns(self):
        """[(cond, value)] of the entry function"""
        return [(c_and(self.final.c, c), v) for c, v in alts(self.ret)]

    def final_value(self, argterm, *path):
        return self.deep(self.final, self.read(self.final, ("M", argterm), tuple(path)))

    # ------------------------------------------------------------ functions
    def cfg(self, f):
        c = f.get("_cfg")
        if c:
            return c
        bbs = f["bbs"]

        def succ(b):
            t = bbs[b]["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                return [t["t"]]
            if k == "call":
                return [t["t"]] if t["t"] is not None else []
            if k == "switch":
                return [x[1] for x in t["ts"]] + [t["else"]]
            return []

        order, state, back = [], {}, set()
        stack = [(0, iter(succ(0)))]
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(succ(s))))
                    break
                elif state[s] == 1:
                    back.add((b, s))
            else:
                state[b] = 2
                order.append(b)
                stack.pop()
        order.reverse()
        c = (order, back, {h for _, h in back})
        f["_cfg"] = c
        return c

    def repeats(self, f, blk, local):
        """can block blk be reached again without the local being made anew"""
        def makes(b):
            bb = f["bbs"][b]
            t = bb["t"]
            return any(s.get("p") == [local, []] for s in bb["s"]) or t["k"] == "call" and t.get("d") == [local, []]
        if makes(blk):
            return False
        seen, todo = set(), [blk]
        while todo:
            for s in self.succs(f, todo.pop()):
                if s == blk:
                    return True
                if s not in seen and not makes(s):
                    seen.add(s)
                    todo.append(s)
        return False

    def cyclic(self, f):
        """blocks that lie on a cycle"""
        c = f.get("_cyc")
        if c is None:
            order, back, heads = self.cfg(f)
            c = set()
            for t, h in back:
                c |= self.natural(f, t, h)
            f["_cyc"] = c
        return c

    def succs(self, f, b):
        t = f["bbs"][b]["t"]
        k = t["k"]
        if k in ("goto", "drop", "assert"):
            return [t["t"]]
        if k == "call":
            return [t["t"]] if t["t"] is not None else []
        if k == "switch":
            return [x[1] for x in t["ts"]] + [t["else"]]
        return []

    def natural(self, f, tail, head):
        """the blocks of the loop with this back edge"""
        pr = f.get("_preds")
        if pr is None:
            pr = f["_preds"] = {}
            for b in self.cfg(f)[0]:
                for x in self.succs(f, b):
                    pr.setdefault(x, []).append(b)
        body, work = {head, tail}, [tail]
        while work:
            b = work.pop()
            if b == head:
                continue
            for q in pr.get(b, []):
                if q not in body:
                    body.add(q)
                    work.append(q)
        return body

    def breaks(self, f, head):
        """is the loop left, other than because its iterator or condition is exhausted at the head, without leaving the function at once"""
        memo = f.setdefault("_brk", {})
        if head in memo:
            return memo[head]
        order, back, heads = self.cfg(f)
        body = set()
        for t, h in back:
            if h == head:
                body |= self.natural(f, t, h)
        # the first exit on the way from the head is the regular one
        seen, work, regular = {head}, [head], None
        exits = [(b, x) for b in body for x in self.succs(f, b) if x not in body and f["bbs"][x]["t"]["k"] != "unreachable"]
        while work and regular is None:
            b = work.pop(0)
            out = [x for x in self.succs(f, b) if x not in body and f["bbs"][x]["t"]["k"] != "unreachable"]
            if out:
                regular = (b, out[0])
                break
            for x in self.succs(f, b):
                if x in body and x not in seen:
                    seen.add(x)
                    work.append(x)
        res = False
        if regular:
            outer = set()
            for t, h in back:
                if h != head:
                    nat = self.natural(f, t, h)
                    if head in nat:
                        outer |= nat
            main = self.live(f, regular[1])
            res = any((x == regular[1] and b != regular[0]) or x != regular[1] and (x in outer or x in main or self.live(f, x) & main) for b, x in exits)
        memo[head] = res
        return res

    def live(self, f, b):
        """blocks reachable from b that do more than leave the function"""
        memo = f.setdefault("_live", {})
        if b not in memo:
            seen, work = {b}, [b]
            back = self.cfg(f)[1]
            while work:
                x = work.pop()
                for y in self.succs(f, x):
                    if y not in seen and (x, y) not in back:
                        seen.add(y)
                        work.append(y)
            memo[b] = set(x for x in seen if f["bbs"][x]["t"]["k"] in ("call", "switch", "assert") or
                          any("p" in s and s["p"][0] != 0 for s in f["bbs"][x]["s"]))
        return memo[b]

    def eval_fn(self, f, args, st, chain, body=None):
        if len(self.stack) > 400:
            raise Budget()
        self.stack.append(f["id"])
        self.inlined.add(f["id"])
        try:
            while True:
                n_ev = len(self.events)
                r = self.eval_once(body or f, f, args, st, chain)
                if r is not None:
                    return r
                del self.events[n_ev:]
        finally:
            self.stack.pop()

    def eval_once(self, b, f, args, st_in, chain):
        order, back, heads = self.cfg(b)
        bbs = b["bbs"]
        st = St(dict(st_in.s), TRUE)
        outer_full = self.full
        self.full = c_and(self.full, st_in.c)
        saved_full = self.full
        for i, v in enumerate(args):
            st.set(("L", chain, i + 1), (), v)
        incoming = {0: [(TRUE, st)]}
        rets = []
        headstate = {}
        redo = False
        for n in order:
            inc = incoming.pop(n, None)
            if not inc:
                continue
            st = self.merge(inc)
            if not st.c:
                continue
            if n in heads:
                key = (chain, n)
                mods = self.loop_mod.setdefault(key, {})
                for (root, path) in sorted(mods, key=str):
                    init = self.read(st, root, path)
                    t = mk("loop", chain, n, str(root_key(root)), str(path), mods[(root, path)])
                    L = self.loops.setdefault(t, {"init": None, "back": [], "backc": [], "site": (f["id"], n)})
                    L["init"], L["c"] = init, c_and(self.full, st.c)
                    L["back"], L["backc"] = [], []
                    st.set(root, path, t)
                headstate[n] = (St(dict(st.s), st.c))
            blk = bbs[n]
            where0 = f["id"]
            for s in blk["s"]:
                if "p" in s:
                    v = self.rvalue(st, chain, b, s["r"], (where0, s["l"]))
                    tg = self.place(st, chain, b, s["p"])
                    self.assign(st, tg, v, (where0, s["l"]))
            t = blk["t"]
            k = t["k"]
            outs = []
            if k == "goto" or k == "drop":
                outs = [(t["t"], st)]
            elif k == "return":
                rets.append((st.c, st))
            elif k == "switch":
                outs = self.switch(st, chain, b, t)
            elif k == "assert":
                c = self.deep(st, self.operand(st, chain, b, t["o"]))
                want = t["exp"]
                ex = {}
                for nm in ("len", "index", "a", "b"):
                    if nm in t:
                        ex[nm] = self.deep(st, self.operand(st, chain, b, t[nm]))
                self.emit("assert", t["msg"], (c,), None, st, (where0, t["l"]), cond=truth(c, not want) if c.op != "ovf" else None, extra=ex)
                outs = [(t["t"], st)]
            elif k == "call":
                st = self.call(st, chain, b, t, f, n)
                self.full = saved_full
                if st is not None and t["t"] is not None:
                    outs = [(t["t"], st)]
            for tgt, s2 in outs:
                if not s2.c:
                    continue
                if (n, tgt) in back:
                    if self.back_edge(chain, tgt, headstate[tgt], s2, f):
                        redo = True
                else:
                    incoming.setdefault(tgt, []).append((s2.c, s2))
        self.full = outer_full
        if redo:
            return None
        if not rets:
            out = St(dict(st_in.s), FALSE)
            return mk("never"), out
        st = self.merge(rets)
        ret = self.read(st, ("L", chain, 0), ())
        # forget the frame
        for r in [r for r in st.s if r[0] == "L" and r[1] == chain]:
            if not b.get("_promoted"):
                del st.s[r]
        local = st.c
        st.c = c_and(st_in.c, local)
        return ret, st

    def back_edge(self, chain, head, hs, s2, f):
        mods = self.loop_mod[(chain, head)]
        new = False
        changed = {}
        for root, d in s2.s.items():
            h = hs.s.get(root)
            if h is d:
                continue
            if root[0] == "L" and h is None:
                continue
            for path in set(d) | set(h or ()):
                p = path
                for i, e in enumerate(p):
                    if isinstance(e, tuple):
                        p = p[:i]
                        break
                if (root, p) in changed:
                    continue
                va, vb = self.read(hs, root, p), self.read(s2, root, p)
                if va.op == "undef":
                    continue
                if va is not vb:
                    changed[(root, p)] = vb
        for (root, p), vb in changed.items():
            cover = [k for k in mods if k[0] == root and (p[: len(k[1])] == k[1])]
            if cover:
                continue
            # replace narrower entries
            for k in [k for k in mods if k[0] == root and k[1][: len(p)] == p]:
                del mods[k]
            mods[(root, p)] = len(mods)
            if len(mods) > 200:
                raise Budget()
            new = True
        for (root, p), i in list(mods.items()):
            t = self.read(hs, root, p)
            if t.op == "loop" and t in self.loops and t.a[0] == chain and t.a[1] == head:
                v = self.deep(s2, self.read(s2, root, p))
                L = self.loops[t]
                if v in L["back"]:
                    i = L["back"].index(v)
                    L["backc"][i] = c_or(L["backc"][i], s2.c)
                else:
                    L["back"].append(v)
                    L["backc"].append(s2.c)
        return new

    def merge(self, inc):
        if len(inc) == 1:
            c, s = inc[0]
            return St(dict(s.s), s.c)
        conds = [c for c, _ in inc]
        out = St({}, c_or(*conds))
        roots = {}
        for _, s in inc:
            for r in s.s:
                roots[r] = None
        for r in roots:
            ds = [s.s.get(r) for _, s in inc]
            d0 = ds[0]
            if all(d is d0 for d in ds):
                out.s[r] = d0
                continue
            paths = set()
            for d in ds:
                if d:
                    paths |= set(d)
            res = {}
            for p in paths:
                if any(p[:i] in paths for i in range(len(p))):
                    pass
                vals = []
                for (c, s) in inc:
                    v = self.read(s, r, p)
                    vals.append((c, v))
                live = [(c, v) for c, v in vals if v.op not in ("undef", "never")]
                live = [(c, v) for c, v in live if not (v.op == "f" and v.a[0].op == "undef")]
                if not live:
                    continue
                v0 = live[0][1]
                if all(v is v0 for _, v in live):
                    res[p] = v0
                else:
                    res[p] = phi(live)
            # drop redundant deeper entries
            out.s[r] = res
        return out

    def switch(self, st, chain, b, t):
        v = self.operand(st, chain, b, t["o"])
        outs = []
        if v.op == "discr":
            x, adtid = self.deep(st, v.a[0]), v.a[1]
            a = self.p.adts.get(adtid)
            names = {vv["discr"]: vv["name"] for vv in a["variants"]} if a else {}
            seen = []
            for val, tgt in t["ts"]:
                nm = names.get(val, "#" + val)
                seen.append(nm)
                c = variant(x, nm)
                outs.append((tgt, c))
            rest = [nm for nm in names.values() if nm not in seen]
            if a and not rest:
                outs.append((t["else"], FALSE))
            elif len(rest) == 1:
                outs.append((t["else"], variant(x, rest[0])))
            else:
                outs.append((t["else"], variant_not(x, tuple(seen))))
        else:
            x = self.deep(st, v)
            isbool = self.is_bool(b, t["o"])
            if isbool:
                for val, tgt in t["ts"]:
                    outs.append((tgt, truth(x, val != "0")))
                    other = truth(x, val == "0")
                outs.append((t["else"], other))
            else:
                neg = TRUE
                for val, tgt in t["ts"]:
                    e = eq(x, const(int(val)))
                    outs.append((tgt, truth(e)))
                    neg = c_and(neg, truth(e, False))
                outs.append((t["else"], neg))
        res = []
        for tgt, c in outs:
            if not c:
                continue
            cc = c_and(st.c, c)
            if cc:
                res.append((tgt, St(dict(st.s), cc)))
        return res

    def is_bool(self, b, o):
        if o["k"] == "const":
            return o["ty"] == "bool"
        p = o["p"]
        if not p[1]:
            return b["locals"][p[0]]["ty"] == "bool"
        # projections: decided by the number of targets, which for bool is the single value 0
        e = p[1][-1]
        if e != "*" and e[0] == "f":
            a = self.p.adts.get(e[3])
            if a:
                for v in a["variants"]:
                    for i, fl in enumerate(v["fields"]):
                        if fl["name"] == e[2]:
                            return fl["ty"] == "bool"
        ty = b["locals"][p[0]]["ty"]
        return ty.lstrip("&").replace("mut ", "") == "bool"

    # ------------------------------------------------------------ places, operands, rvalues
    def place(self, st, chain, b, p):
        cur = [(TRUE, ("L", chain, p[0]), ())]
        var = None
        for e in p[1]:
            if e == "*":
                nxt = []
                for c, r, pa in cur:
                    v = self.read(st, r, pa)
                    for c2, r2, p2 in self.ptr(v):
                        nxt.append((c_and(c, c2), r2, p2))
                cur = nxt
            elif e[0] == "d":
                var = e[1]
                continue
            elif e[0] == "f":
                if any(x in e[3] for x in BOXF):
                    var = None
                    continue
                nm = e[2] if var is None else var + ":" + e[2]
                cur = [(c, r, pa + (nm,)) for c, r, pa in cur]
            elif e[0] == "i":
                i = self.deep(st, self.read(st, ("L", chain, e[1]), ()))
                cur = [(c, r, pa + (("[]", i),)) for c, r, pa in cur]
            elif e[0] == "ci":
                if e[2]:
                    nxt = []
                    for c, r, pa in cur:
                        ln = length(self.deep(st, self.read(st, r, pa)))
                        nxt.append((c, r, pa + (("[]", sub(ln, const(e[1]))),)))
                    cur = nxt
                else:
                    cur = [(c, r, pa + (("[]", const(e[1])),)) for c, r, pa in cur]
            elif e[0] == "ss":
                cur = [(c, r, pa + (("[..]", const(e[1]), const(-e[2]) if e[3] else const(e[2])),)) for c, r, pa in cur]
            else:
                cur = [(c, r, pa + (("?",),)) for c, r, pa in cur]
            var = None
        return cur

    def read_place(self, st, chain, b, p):
        # a copy of the raw pointer inside a Box is a pointer to what the box holds
        boxed = p[1] and p[1][-1] != "*" and p[1][-1][0] == "f" and any(x in p[1][-1][3] for x in BOXF)
        tg = self.place(st, chain, b, p)
        if boxed:
            vals = [(c, self.read(st, r, pa)) for c, r, pa in tg]
            return phi([(c, mk("ref", r, pa) if v.op != "ref" else v) for (c, r, pa), (_, v) in zip(tg, vals)])
        if len(tg) == 1:
            return self.read(st, tg[0][1], tg[0][2])
        return phi([(c, self.read(st, r, pa)) for c, r, pa in tg])

    def operand(self, st, chain, b, o):
        if o["k"] in ("copy", "move"):
            return self.read_place(st, chain, b, o["p"])
        return self.konst(st, o)

    def konst(self, st, o):
        if "fn" in o:
            return mk("fnitem", o["fn"].get("rid") or o["fn"]["id"], norm(o["fn"]["path"]), o["fn"]["id"])
        if "closure" in o:
            return mk("closure", (), o["closure"])
        if "int" in o:
            v = int(o["int"])
            ty = o["ty"]
            if ty == "bool":
                return const(bool(v))
            if ty == "char":
                return mk("c", "char", chr(v))
            if ty in ("f64", "f32"):
                import struct
                return mk("c", "f64", struct.unpack("<d", struct.pack("<Q", v))[0]) if ty == "f64" else mk("c", "f32", v)
            if ty.startswith("i") and ty[1:].isdigit() and v >> (int(ty[1:]) - 1):
                v -= 1 << int(ty[1:])
            return const(v)
        if "str" in o:
            return const(o["str"])
        if "bytes" in o:
            return mk("c", "bytes", bytes(o["bytes"]))
        if "promoted" in o:
            f = self.p.fns.get(o["of"])
            if f and o["promoted"] < len(f["promoted"]):
                pb = f["promoted"][o["promoted"]]
                pb["_promoted"] = True
                chain = "promoted:%s:%d" % (o["of"], o["promoted"])
                s0 = St({}, TRUE)
                n = len(self.events)
                self.stack.append(f["id"])
                try:
                    r = self.eval_once(pb, f, [], s0, chain)
                finally:
                    self.stack.pop()
                del self.events[n:]
                if r:
                    v, s1 = r
                    return self.deep(s1, v)
            return mk("constitem", "promoted", o["of"], o["promoted"])
        if "item" in o:
            return mk("constitem", norm(o["item"]))
        if o.get("rtcheck"):
            return FALSEV
        ty = o["ty"]
        if ty == "()":
            return UNIT
        return mk("constitem", o.get("pretty", ty))

    def rvalue(self, st, chain, b, r, where):
        k = r["k"]
        if k == "use":
            return self.operand(st, chain, b, r["o"])
        if k in ("ref", "rawptr"):
            tg = self.place(st, chain, b, r["p"])
            return phi([(c, mk("ref", ro, pa)) for c, ro, pa in tg])
        if k == "bin":
            x = self.binop(st, r["op"], self.operand(st, chain, b, r["a"]), self.operand(st, chain, b, r["b"]))
            if r["op"].startswith("Shl") and "int" in r["a"] and r["a"]["ty"] in ("u8", "u16", "u32", "i8", "i16", "i32") and x.op == "bin":
                return mk("cast", x, "u64", r["a"]["ty"])    # the bits beyond are lost
            return x
        if k == "un":
            v = self.operand(st, chain, b, r["o"])
            if r["op"] == "Not":
                return not_(self.deep(st, v))
            if r["op"] == "PtrMetadata":
                return length(self.deep(st, v))
            return mk("neg", self.deep(st, v))
        if k == "cast":
            v = self.operand(st, chain, b, r["o"])
            if r["kind"].startswith("IntToInt") and r["from"] == "bool":
                d = self.deep(st, v)
                return phi([(truth(d), const(1)), (truth(d, False), const(0))])
            if r["kind"].startswith("IntToInt"):
                return cast(self.deep(st, v), r["from"], r["ty"])
            if r["kind"].startswith(("FloatTo", "IntToFloat")):
                return mk("castf", self.deep(st, v), r["from"], r["ty"])
            return v
        if k == "discr":
            tg = self.read_place(st, chain, b, r["p"])
            return mk("discr", tg, r["adt"])
        if k == "agg":
            ops = [self.operand(st, chain, b, o) for o in r["ops"]]
            a = r["a"]
            if a == "tuple":
                return mk("tuple", *ops)
            if a == "array":
                return mk("array", *ops)
            if a == "adt":
                return mk("adt", r["adt"], r["variant"], tuple(zip(r["fields"], ops)))
            if a == "closure":
                cf = self.p.fns.get(r["closure"])
                names = self.upvar_names(cf, len(ops)) if cf else [str(i) for i in range(len(ops))]
                return mk("closure", tuple(zip(names, ops)), r["closure"])
            return mk("aggo", *ops)
        if k == "repeat":
            return mk("repeat", self.operand(st, chain, b, r["o"]), r["n"])
        return mk("other", str(where))

    def upvar_names(self, cf, n):
        """closure field names as they appear in the closure's places (by index)"""
        nm = cf.get("_upv")
        if nm is None:
            nm = {}

            def scan(x):
                if isinstance(x, list):
                    if len(x) == 4 and x[0] == "f" and x[3] == cf["id"]:
                        nm[x[1]] = x[2]
                    for y in x:
                        scan(y)
                elif isinstance(x, dict):
                    for y in x.values():
                        scan(y)

            scan(cf["bbs"])
            cf["_upv"] = nm
        return [nm.get(i, "#%d" % i) for i in range(n)]

    def binop(self, st, op, a, b):
        a, b = self.deep(st, a), self.deep(st, b)
        if op.endswith("WithOverflow"):
            v = self.binop(st, op[: -len("WithOverflow")], a, b)
            return mk("tuple", v, mk("ovf", op[0:3], a, b))
        if op.endswith("Unchecked"):
            op = op[: -len("Unchecked")]
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Eq":
            if a.op == "discr" or b.op == "discr":
                return mk("eqd", a, b)
            return eq(a, b)
        if op == "Ne":
            return not_(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Le":
            return not_(lt(b, a))
        if op == "Ge":
            return not_(lt(a, b))
        if op == "BitAnd":
            return mk("and", a, b)
        if op == "BitOr":
            return mk("or", a, b)
        return mk("bin", op, a, b)

    # ------------------------------------------------------------ calls
    def call(self, st, chain, b, t, f, n):
        fo = t["f"]
        where = (f["id"], t["l"])
        args = [self.operand(st, chain, b, a) for a in t["a"]]
        tys = [self.op_ty(b, a) for a in t["a"]]
        site = "%s/%d" % (chain, n)
        if "fn" in fo:
            callee = fo["fn"]
            ret, st = self.do_call(st, callee, args, tys, site, where)
        else:
            fv = self.operand(st, chain, b, fo)
            ret, st = self.apply(st, fv, args, site, where)
        if st is None or not st.c or t["t"] is None:
            return None
        tg = self.place(st, chain, b, t["d"])
        self.assign(st, tg, ret, where)
        return st

    def op_ty(self, b, o):
        if o["k"] == "const":
            return o["ty"]
        p = o["p"]
        return b["locals"][p[0]]["ty"] if not p[1] else "?"

    def local_target(self, callee):
        for k in ("rid", "id"):
            i = callee.get(k)
            if i and i in self.p.fns:
                return self.p.fns[i]
        return None

    def inlinable(self, g):
        if g["kind"] == "const":
            return False
        if g.get("trait") in NOINLINE_TRAITS:
            return False
        if g["id"] in self.stack:
            return False
        if len(self.stack) > self.maxdepth:
            self.bounded.append(g["id"])
            return False
        return not self.noinline(g)

    def do_call(self, st, callee, args, tys, site, where):
        path = norm(callee["path"])
        g = self.local_target(callee)
        if g is not None and g["kind"] == "closure" and len(args) == 2 and path.split("::")[-1] in ("call", "call_mut", "call_once"):
            tup = args[1]
            return self.apply(st, args[0] if args[0].op in ("ref", "closure") else args[0], list(tup.a) if tup.op == "tuple" else [tup], site, where)
        if g is not None and self.inlinable(g):
            if g["id"] == callee.get("id") and g.get("in_trait") and not callee.get("rid"):
                pass  # a provided method called on an unknown type may be overridden
            else:
                self.emit("enter", g["nname"], tuple(self.deep(st, a) for a in args), None, st, where, callee=callee)
                ret, st2 = self.eval_fn(g, args, st, site + ">" + g["id"].split("::")[-1])
                return ret, st2
        from models import MODELS
        m = MODELS.get(path)
        if m is None:
            seg = path.split("::")
            m = MODELS.get("::".join(seg[-2:]))
        if m is not None and (g is None or callee.get("trait") in NOINLINE_TRAITS):
            r = m(self, st, args, tys, callee, site, where)
            if r is not None:
                return r
        return self.external(st, path, args, tys, callee, site, where)

    def external(self, st, path, args, tys, callee, site, where):
        dargs = []
        for i, a in enumerate(args):
            x = a
            if a.op == "it":
                st, x = self.consume(st, a, site + "#%d" % i, where)
            elif a.op in ("closure", "fnitem"):
                st = self.run_unknown(st, a, path, i, site, where)
                x = self.deep(st, a)
            else:
                x = self.deep(st, a)
            dargs.append(x)
        ret = mk("call", path, tuple(dargs))
        self.emit("call", path, tuple(dargs), ret, st, where, callee=callee)
        if callee and callee.get("diverges"):
            return mk("never"), None
        for i, a in enumerate(args):
            if i < len(tys) and tys[i].startswith("&mut") or (i < len(tys) and tys[i].startswith("*mut")):
                for c, root, pa in self.ptr(a):
                    old = self.read(st, root, pa)
                    if old.op == "ref" or (old.op == "closure"):
                        # &mut &mut x
                        continue
                    st = st.copy()
                    neww = mk("eff", ret, i)
                    if c != TRUE:
                        neww = phi([(c, neww), (c_not(c), old)])
                    st.set(root, pa, neww)
                    if root[0] == "M":
                        self.emit("write", path, (root[1], neww), None, st, where, extra=(root, pa))
        return ret, st

    def run_unknown(self, st, clo, path, i, site, where):
        """a closure handed to code we do not see may run any number of times"""
        if clo.op == "fnitem":
            return st
        cf = self.p.fns.get(clo.a[1])
        if cf is None or cf["id"] in self.stack:
            return st
        cargs = [mk("cbarg", site + "#%d" % i, k) for k in range(cf["argc"] - 1)]

        def body(s):
            _, s2 = self.apply(s, clo, cargs, site + "#%d" % i, where)
            return s2

        return self.loop_eval(st, body, site + "#%d" % i)

    def apply(self, st, fv, args, site, where):
        """calls a closure / fn item with already separated arguments"""
        if fv.op == "ref":
            fv = self.load(st, fv)
        if fv.op == "closure":
            cf = self.p.fns.get(fv.a[1])
            if cf is None or fv.a[1] in self.stack:
                return self.external(st, "closure:" + fv.a[1], list(args), [], {}, site, where)
            env = fv
            a1ty = cf["locals"][1]["ty"]
            if a1ty.startswith("&"):
                root = ("L", site + ">env", 0)
                st = st.copy()
                st.set(root, (), fv)
                env = mk("ref", root, ())
            want = cf["argc"] - 1
            if len(args) != want:
                if len(args) == 1 and args[0].op == "tuple":
                    args = list(args[0].a)
                elif want == 1:
                    args = [mk("tuple", *args)]
                else:
                    args = [field(args[0], str(k)) for k in range(want)] if args else []
            return self.eval_fn(cf, [env] + list(args), st, site + ">c" + fv.a[1][-12:])
        if fv.op == "fnitem":
            rid, path, oid = fv.a
            g = self.p.fns.get(rid) or self.p.fns.get(oid)
            callee = {"id": oid, "rid": rid, "path": path}
            if g is None:
                ctor = self.ctor(path)
                if ctor:
                    aid, var, fields = ctor
                    return mk("adt", aid, var, tuple(zip(fields, args))), st
            return self.do_call(st, callee, list(args), ["?"] * len(args), site, where)
        if fv.op == "phi":
            sts, vals = [], []
            for c, x in fv.a[0]:
                s = St(dict(st.s), c_and(st.c, c))
                if not s.c:
                    continue
                v, s2 = self.apply(s, x, args, site, where)
                if s2 is not None and s2.c:
                    sts.append((s2.c, s2))
                    vals.append((s2.c, v))
            if not sts:
                return mk("never"), None
            return phi(vals), self.merge(sts)
        dargs = [self.deep(st, a) for a in args]
        ret = mk("call", "fnvalue", (self.deep(st, fv),) + tuple(dargs))
        self.emit("call", "fnvalue", (self.deep(st, fv),) + tuple(dargs), ret, st, where)
        return ret, st

    def ctor(self, path):
        cs = getattr(self.p, "_ctors", None)
        if cs is None:
            cs = {}
            for k, v in self.p.adts.items():
                for var in v["variants"]:
                    base = norm(v["path"])
                    fs = [x["name"] for x in var["fields"]]
                    if v["kind"] == "enum":
                        cs[base + "::" + var["name"]] = (k, var["name"], fs)
                    else:
                        cs[base] = (k, var["name"], fs)
            self.p._ctors = cs
        if path.endswith("Option::Some"):
            return (OPT, "Some", ["0"])
        if path.endswith("Result::Ok"):
            return (RES, "Ok", ["0"])
        if path.endswith("Result::Err"):
            return (RES, "Err", ["0"])
        return cs.get(path) or cs.get("rustomata::" + path)

    # ------------------------------------------------------------ loops inside library code
    def loop_eval(self, st, body, site):
        """body(st) is run zero or more times"""
        key = (site, "lib")
        mods = self.loop_mod.setdefault(key, {})
        for _ in range(12):
            n_ev = len(self.events)
            s = st.copy()
            for (root, path) in sorted(mods, key=str):
                init = self.read(s, root, path)
                t = mk("loop", site, "lib", str(root_key(root)), str(path), mods[(root, path)])
                L = self.loops.setdefault(t, {"init": None, "back": [], "backc": [], "site": (self.stack[-1], site)})
                L["init"], L["back"], L["backc"], L["c"] = init, [], [], c_and(self.full, st.c)
                s.set(root, path, t)
            hs = St(dict(s.s), s.c)
            s2 = body(s)
            if s2 is None or not s2.c:
                return hs
            if self.back_edge2(key, hs, s2):
                del self.events[n_ev:]
                continue
            out = St(dict(hs.s), st.c)
            return out
        return st

    def back_edge2(self, key, hs, s2):
        self.loop_mod.setdefault(key, {})
        return self.back_edge(key[0], key[1], hs, s2, None)

    # ------------------------------------------------------------ iterators
    def elem(self, st, it, pos, site, where):
        """(state, cond, element) of an iterator value at position pos.  cond: when the element is produced."""
        if it.op == "ref":
            v = self.read(st, it.a[0], it.a[1])
            if v.op in ("it", "phi", "ref") or (v.op == "adt" and "range" in v.a[0].lower()):
                if v.op != "phi" or any(x.op == "it" for _, x in v.a[0]):
                    return self.elem(st, v, pos, site, where)
            if v.op == "loop" and v in self.loops and self.loops[v]["init"] is not None and \
                    self.loops[v]["init"].op in ("it", "ref"):
                return self.elem(st, self.loops[v]["init"], pos, site, where)
            return st, self.more(st, it, pos), mk("ref", it.a[0], it.a[1] + (("[]", pos),))
        if it.op == "phi":
            sts, vals, conds = [], [], FALSE
            for c, x in it.a[0]:
                s, c2, v = self.elem(St(dict(st.s), st.c), x, pos, site, where)
                vals.append((c, v))
                conds = c_or(conds, c_and(c, c2))
            return st, conds, phi(vals)
        if it.op == "it":
            k = it.a[0]
            if k == "map":
                st, c, v = self.elem(st, it.a[1], pos, site + "m", where)
                s = self.with_cond(st, c)
                r, s2 = self.apply(s, it.a[2], [v], site + "m", where)
                return self.without(s2, st), c, r
            if k == "inspect":
                st, c, v = self.elem(st, it.a[1], pos, site + "m", where)
                return st, c, v
            if k in ("filter", "take_while", "skip_while"):
                st, c, v = self.elem(st, it.a[1], pos, site + "f", where)
                root = ("L", site + ">felem", 0)
                s = self.with_cond(st, c)
                s.set(root, (), v)
                r, s2 = self.apply(s, it.a[2], [mk("ref", root, ())], site + "f", where)
                d = self.deep(s2 or s, r)
                if k == "skip_while":
                    return self.without(s2, st), c_and(c, lit(mk("after", d))), v
                if k == "take_while":
                    return self.without(s2, st), c_and(c, lit(mk("while", d))), v
                return self.without(s2, st), c_and(c, truth(d)), v
            if k in ("filter_map", "map_while"):
                st, c, v = self.elem(st, it.a[1], pos, site + "g", where)
                s = self.with_cond(st, c)
                r, s2 = self.apply(s, it.a[2], [v], site + "g", where)
                rd = self.deep(s2 or s, r)
                keep = variant(rd, "Some") if k == "filter_map" else lit(mk("while", mk("isv", rd, "Some")))
                return self.without(s2, st), c_and(c, keep), field(r, "0", "Some")
            if k in ("flat_map",):
                st, c, v = self.elem(st, it.a[1], pos, site + "o", where)
                s = self.with_cond(st, c)
                r, s2 = self.apply(s, it.a[2], [v], site + "o", where)
                s2 = self.without(s2, st)
                s3, c2, v2 = self.elem(self.with_cond(s2, c), self.iterable(s2, r), mk("pos", site + "i"), site + "i", where)
                return self.without(s3, st), c_and(c, c2), v2
            if k == "flatten":
                st, c, v = self.elem(st, it.a[1], pos, site + "o", where)
                s3, c2, v2 = self.elem(self.with_cond(st, c), self.iterable(st, v), mk("pos", site + "i"), site + "i", where)
                return self.without(s3, st), c_and(c, c2), v2
            if k == "enumerate":
                st, c, v = self.elem(st, it.a[1], pos, site, where)
                return st, c, mk("tuple", mk("ord", pos) if sparse(it.a[1]) else pos, v)
            if k == "rev":
                return self.elem(st, it.a[1], mk("revp", pos), site, where)
            if k == "skip":
                return self.elem(st, it.a[1], add(pos, it.a[2]), site, where)
            if k == "take":
                st, c, v = self.elem(st, it.a[1], pos, site, where)
                return st, c_and(c, truth(lt(pos, it.a[2]))), v
            if k == "zip":
                pa, pb = [mk("pos", site + "~" + n) if sparse(x) else pos for n, x in (("z", it.a[1]), ("y", it.a[2]))]
                st, c, v = self.elem(st, it.a[1], pa, site + "z", where)
                st, c2, v2 = self.elem(st, it.a[2], pb, site + "y", where)
                return st, c_and(c, c2), mk("tuple", v, v2)
            if k == "chain":
                st, c, v = self.elem(st, it.a[1], pos, site + "a", where)
                st, c2, v2 = self.elem(st, it.a[2], pos, site + "b", where)
                which = mk("chain", mk("pos", site))
                return st, c_or(c_and(c, lit(which)), c_and(c2, lit(which, False))), \
                    phi([(lit(which), v), (lit(which, False), v2)])
            if k == "cloned":
                st, c, v = self.elem(st, it.a[1], pos, site, where)
                return st, c, self.load(st, v)
            if k == "keys":
                st, c, v = self.elem(st, it.a[1], pos, site, where)
                return st, c, self.proj_ptr(st, v, "0")
            if k == "values":
                st, c, v = self.elem(st, it.a[1], pos, site, where)
                return st, c, self.proj_ptr(st, v, "1")
            if k == "scan":
                return st, self.more(st, it, pos), mk("idx", self.deep(st, it), pos)
            if k == "range":
                return st, lit(mk("more", self.deep(st, it), pos)), self.range_elem(it.a[1], it.a[2], pos)
            if k == "once":
                return st, lit(mk("more", self.deep(st, it), pos)), it.a[1]
            if k == "repeat":
                return st, TRUE, it.a[1]
            if k == "dyn":
                return self.elem(st, it.a[1], pos, site, where)
        if it.op == "adt" and it.a[0].endswith(("range::Range", "ops::Range")):
            lo, hi = it.a[2][0][1], it.a[2][1][1]
            return st, lit(mk("more", self.deep(st, it), pos)), self.range_elem(lo, hi, pos)
        if it.op == "adt" and it.a[0].endswith("RangeFrom"):
            return st, lit(mk("more", self.deep(st, it), pos)), self.range_elem(it.a[2][0][1], None, pos)
        if it.op == "call" and it.a[0].endswith("RangeInclusive::new"):
            return st, lit(mk("more", self.deep(st, it), pos)), self.range_elem(it.a[1][0], None, pos)
        if it.op == "adt" and it.a[0] == OPT:
            return st, variant(it, "Some"), field(it, "0", "Some")
        if it.op == "loop" and it in self.loops and self.loops[it]["init"] is not None and self.loops[it]["init"].op in ("it", "ref"):
            return self.elem(st, self.loops[it]["init"], pos, site, where)
        if it.op == "coll" and it.a[3] in SEQ and len(it.a[1]) == 1 and pos.op == "pos":
            # a list made by a plain traversal: its elements in order
            k = next(iter(it.a[1]))
            if len(k) == 1:
                p, v = next(iter(k))
                if v and p.op == "more" and hole(p):
                    return st, lit(subst(p, hole(p), pos)), subst(it.a[0], hole(p), pos)
        return st, self.more(st, it, pos), mk("idx", self.deep(st, it), pos)

    def range_elem(self, lo, hi, pos):
        if lo.op == "c":
            return add(lo, pos)
        return add(lo, pos)

    def proj_ptr(self, st, v, name):
        if v.op == "ref":
            return mk("ref", v.a[0], v.a[1] + (name,))
        return field(v, name)

    def more(self, st, it, pos):
        b = self.deep(st, it)
        if b.op == "call" and b.a[0] in ("Vec::new", "std::vec::Vec::new") and not b.a[1] or b.op == "array" and not b.a:
            return FALSE
        if is_const(pos):
            return truth(lt(pos, length(b)))
        return lit(mk("more", b, pos))

    def with_cond(self, st, c):
        return St(dict(st.s), c_and(st.c, c))

    def without(self, s2, st):
        if s2 is None:
            return St(dict(st.s), st.c)
        return St(s2.s, st.c)

    def iterable(self, st, v):
        """what IntoIterator::into_iter yields for a value"""
        return v

    def consume(self, st, it, site, where, kind=""):
        """evaluates a whole iterator; returns (state, coll term)"""
        pos = mk("pos", site)
        box = {}

        def body(s):
            s1, c, v = self.elem(s, it, pos, site, where)
            box["v"], box["c"] = self.deep(s1, v), c
            return self.with_cond(s1, c)

        st2 = self.loop_eval(st, body, site)
        base = self.deep(st2, it)
        return st2, mk("coll", box["v"], box["c"], base, kind)


def sparse(it):
    """does the iterator leave elements out, so that the position in it is not the position in what it traverses"""
    while it.op in ("it", "itd"):
        if it.a[0] in ("filter", "filter_map", "flat_map", "flatten", "chain", "skip_while"):
            return True
        if it.a[0] == "zip" and sparse(it.a[2]):
            return True
        if len(it.a) < 2 or not isinstance(it.a[1], T):
            return False
        it = it.a[1]
    return False


def root_key(root):
    return root[:1] + tuple(x.n if isinstance(x, T) else x for x in root[1:])


def c_not(c):
    """negation of a DNF (only exact for a single conjunction of one literal; otherwise an opaque complement)"""
    if len(c) == 1:
        k = next(iter(c))
        return frozenset(frozenset([(p, not v)]) for p, v in k)
    r = TRUE
    for k in c:
        r = c_and(r, frozenset(frozenset([(p, not v)]) for p, v in k))
    return r


WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
         "u128": 128, "i128": 128, "char": 32, "bool": 1}


def cast(v, frm, to):
    if v.op == "discr":
        return mk("castd", v, to)
    if WIDTH.get(to, 0) >= WIDTH.get(frm, 999):
        return v
    if is_const(v):
        return v
    return mk("cast", v, frm, to)
