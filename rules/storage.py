"""Rules about storages: pushdowns, tree stacks and their instructions."""
from base import *
from pat import *
from ev import subst
from view import assume
from grammar import after_all, list_of
from derivations import empty_list, lists_over


def args(f):
    return [mk("arg", i, f["locals"][i]["name"] or "") for i in range(1, f["argc"] + 1)]


def under(t, k):
    """a value under a condition"""
    for p, v in k:
        t = assume(t, p, v)
    return t


def only(c, x, var, others):
    """does the condition say that x is this variant, and nothing else"""
    return bool(c) and all(k and all((p, v) in [(mk("is", x, var), True)] + [(mk("is", x, o), False) for o in others] or
                                     p.op == "isv" and p.a[0] is x and (p.a[1] == var) == v for p, v in k) for k in c)


def one_value(ctx, key, f, text, good, noinline=None):
    """the function has one value, under any condition"""
    v = ctx.view(f, noinline=noinline)
    rs = paths(v)
    ctx.ob(key, len(rs) >= 1 and all(good(r, k) for k, r in rs), text + "; here: " + "; ".join("%s if %s" % (show(r, 5), showc(frozenset([k]), 5)) for k, r in rs)[:600], f)


def applied(t, g, x):
    """t is the value of the function g for x"""
    return is_call(t, "fnvalue") and t.a[1][0] is g and first(x, t.a[1][1]) is not None


# ---------------------------------------------------------------- B01
def b01(ctx):
    P = r"util::push_down::Pushdown\b"

    def m(name, trait=None):
        return ctx.method(P, trait, name)

    def cons(t, var="Cons"):
        return is_adt(t, "Pushdown", var)

    f = m("new")
    if f:
        one_value(ctx, "run:new", f, "a new pushdown is empty", lambda r, k: not k and cons(r, "Empty"))
    f = m("push")
    if f:
        s, a = args(f)
        one_value(ctx, "run:push", f, "push puts the element on top of the pushdown", lambda r, k: not k and cons(r) and field(r, "value") is a and field(r, "below") is s)
    f = m("is_empty")
    if f:
        s, = args(f)
        t, no = bools(ctx.view(f))
        ctx.ob("run:is_empty", only(t, s, "Empty", ["Cons"]) and only(no, s, "Cons", ["Empty"]), "a pushdown is empty iff nothing is on it: " + showc(t), f)
    top = {"pop": lambda s, r: r.op == "tuple" and len(r.a) == 2 and r.a[0] is field(s, "below", "Cons") and r.a[1] is field(s, "value", "Cons"),
           "set": lambda s, r: cons(r) and field(r, "below") is field(s, "below", "Cons") and r is not s,
           "peek": lambda s, r: r is field(s, "value", "Cons"), "peek_ref": lambda s, r: r is field(s, "value", "Cons")}
    for name, good in top.items():
        f = m(name)
        if not f:
            continue
        s = args(f)[0]
        seen = set()
        for k, r in paths(ctx.view(f)):
            if is_ok(r) or is_some(r):
                seen.add("top")
                v = payload(r)
                ok_ = good(s, v) and (name != "set" or field(v, "value") is args(f)[1])
                ctx.ob("run:" + name, ok_ and set(k) <= {(mk("is", s, "Cons"), True), (mk("is", s, "Empty"), False)}, "%s acts on the top element and leaves the rest: %s if %s" %
                       (name, show(r), showc(frozenset([k]))), f)
            elif is_err(r) or is_none(r):
                seen.add("empty")
                ctx.ob("run:%s:empty" % name, any((p, v) in ((mk("is", s, "Empty"), True), (mk("is", s, "Cons"), False)) for p, v in k) and
                       (is_none(r) or payload(r) is s or cons(payload(r), "Empty")), "%s fails for the empty pushdown only: %s if %s" % (name, show(r), showc(frozenset([k]))), f)
            else:
                ctx.undecided("run:" + name, show(r), f)
        ctx.ob("run:%s:both" % name, seen == {"top", "empty"}, "%s treats empty and other pushdowns" % name, f)
    f = m("map")
    if f:
        s, g = args(f)
        for k, r in paths(ctx.view(f)):
            if cons(r, "Empty"):
                ctx.ob("run:map:empty", any((p, v) in ((mk("is", s, "Empty"), True), (mk("is", s, "Cons"), False)) for p, v in k), "only the empty pushdown becomes the empty one", f)
            else:
                b = field(r, "below") if cons(r) else r
                ctx.ob("run:map", cons(r) and is_call(field(r, "value"), "fnvalue") and any(x is field(s, "value", "Cons") for x in walk(field(r, "value"))) and
                       is_call(b, "map") and b.a[1][0] is field(s, "below", "Cons"), "every element is mapped, in its place: " + show(r), f)
    # lists run from the bottom to the top
    for name, fs in (("to_vec", [m("to_vec")]), ("iter", [m("iter")]), ("into", ctx.methods(P, r"Into<.*Vec", "into"))):
        for f in [x for x in fs if x]:
            s = args(f)[0]
            v = ctx.view(f, noinline=lambda g: g is not f and g["nname"].endswith(("Pushdown::to_vec", "Pushdown::iter")))
            for k, r in paths(v):
                if is_call(r, "to_vec", "into", "iter", "into_iter") and r.a[1][0] is s:
                    continue
                inner = r.a[0].a[1][0] if r.op == "eff" and is_call(r.a[0], "reverse") else None
                cs = cases(inner) if inner is not None else cases(r)
                el = cs[0][0] if len(cs) == 1 else None
                L = v.loops.get(el.a[0]) if el is not None and el.op == "f" and el.a[1:] == ("value", "Cons") else None
                if L is None:
                    ctx.undecided("run:" + name, show(r), f)
                    continue
                c = el.a[0]
                ctx.ob("run:%s" % name, inner is not None and L["init"] is s and all(b is field(c, "below", "Cons") for b in L["back"]) and
                       not [x for x in cs[0][1] if first(ALT(MORE(ANY, ANY), IS(c, ANY)), x[0]) is None] and any(p is mk("is", c, "Empty") and b or p is mk("is", c, "Cons") and not b for p, b in k),
                       "the list has all elements from the bottom to the top: %s if %s" % (show(r), showc(frozenset([k]))), f)
    for f in ctx.methods(P, r"From<", "from"):
        a = args(f)[0]
        v = ctx.view(f)
        for k, r in paths(v):
            L = v.loops.get(r)
            if L is None:
                ctx.undecided("run:from", show(r), f)
                continue
            ctx.ob("run:from", cons(L["init"], "Empty") and all(cons(b) and field(b, "below") is r and first(IX(a, I("i")), field(b, "value")) is not None for b in L["back"]) and after_all(k),
                   "the elements of a list are pushed one after the other: " + "; ".join(show(b, 5) for b in L["back"]), f)
    # ---------------------------------------------------------------- the stack of a pushdown automaton
    S = r"push_down_automaton::PushDown\b"
    f = ctx.method(S, None, "new")
    if f:
        e, i = args(f)
        one_value(ctx, "stack:new", f, "a new stack has its bottom and the initial symbol on it", lambda r, k: is_adt(r, "PushDown") and list_of(field(r, "elements")) == [e, i])
    f = ctx.method(S, None, "current_symbol")
    if f:
        s = args(f)[0]
        els = fld(s, "elements")
        one_value(ctx, "stack:current", f, "the current symbol is the topmost one", lambda r, k: r is idx(els, sub(length(els), const(1))) or
                  first(F(CALL("last", els), "Some:0"), r) is not None)
    f = ctx.method(S, None, "empty")
    if f:
        s = args(f)[0]
        els = fld(s, "elements")
        one_value(ctx, "stack:bottom", f, "the bottom symbol is the lowest one", lambda r, k: r is idx(els, const(0)))
    f = ctx.method(S, None, "is_bottom")
    if f:
        s = args(f)[0]
        one_value(ctx, "stack:is_bottom", f, "a stack is at its bottom iff there is one symbol", lambda r, k: r is eq(length(fld(s, "elements")), const(1)) and not k)
    f = ctx.method(S, None, "replace")
    if f:
        s, cur, new = args(f)
        els = fld(s, "elements")
        rev = ALT(OP("eff", CALL("reverse", cur), 0), COLL(IX(cur, ANY), [MORE(cur, ANY)]))
        test = CALL("ends_with", els, V("x"))
        seen = set()
        for k, r in paths(ctx.view(f)):
            e = None
            for p, v in k:
                e = e or first(test, p)
            if not is_ok(r) and not is_err(r):
                ctx.undecided("stack:replace", show(r), f)
                continue
            if e is None:
                ctx.undecided("stack:replace:test", showc(frozenset([k])), f)
                continue
            x = e["x"]
            down = x.op == "eff" and is_call(x.a[0], "reverse") and x.a[0].a[1][0] is cur or x.op == "coll" and any(y.op == "revp" for y in walk(x.a[0]))
            ctx.ob("stack:replace:top", down, "the current value is compared with the top of the stack, read downwards: " + show(x), f)
            others = [l for l in k if first(test, l[0]) is None and l[0].op != "more"]
            ctx.ob("stack:replace:only", not others, "a stack is replaced iff its top is the current value: " + showc(frozenset([k])), f)
            hit = [v for p, v in k if first(test, p) is not None]
            if is_err(r):
                seen.add("other")
                ctx.ob("stack:replace:kept", hit == [False] and payload(r) is s, "any other stack is kept: %s if %s" % (show(r), showc(frozenset([k]))), f)
                continue
            seen.add("top")
            x = field(payload(r), "elements")
            cut = CALL(("truncate", "split_off", "drain"), els, V("n"))
            q = x.a[0].a[1] if x.op == "eff" and is_call(x.a[0], "extend", "append", "extend_from_slice") else x.a if x.op == "cat" else None
            if q is None:
                ctx.undecided("stack:replace:new", show(x), f)
                continue
            base, more = q[0], q[1]
            n = base.a[0].a[1][1] if base.op == "eff" and is_call(base.a[0], "truncate") and base.a[0].a[1][0] is els else None
            ctx.ob("stack:replace:cut", n is not None and n is sub(length(els), length(cur)), "exactly the symbols of the current value are removed from the top: " + show(base, 6), f)
            ctx.ob("stack:replace:put", more is new or lists_over(more) and len(cases(more)) == 1 and first(IX(new, I("i")), cases(more)[0][0]) is not None and
                   not [l for l in cases(more)[0][1] if l[0].op != "more"],
                   "the new value is put on top: " + show(more), f)
        ctx.ob("stack:replace:both", seen == {"top", "other"}, "a stack with another top is not replaced", f)
    f = ctx.method(r"push_down_automaton::PushDownInstruction\b", r"Instruction\b", "apply")
    if f:
        s, p0 = args(f)
        R = CALL("PushDown::replace", p0, F(s, "Replace:current_val"), F(s, "Replace:new_val"))
        v = ctx.view(f, noinline=lambda g: g["nname"].endswith("PushDown::replace"))
        for k, r in paths(v):
            cs = cases(r)
            if not cs:
                ctx.ob("replace:none", any(first(IS(R, "Ok"), p) is not None and not b or first(IS(R, "Err"), p) is not None and b for p, b in k), "only a stack that cannot be replaced has no successor", f)
                continue
            for el, c in cs:
                good = first(ALT(F(R, "Ok:0"), IX(R, ANY), IX(CALL("ok", R), ANY)), el) is not None
                ctx.ob("replace", good and not [l for l in set(c) | set(k) if first(ALT(MORE(ANY, ANY), OP("is", R, ANY)), l[0]) is None and l[0].op != "is"],
                       "an instruction yields the stack with its current value replaced by its new value: %s if %s" % (show(r, 6), showc(frozenset([k]))), f)


# ---------------------------------------------------------------- B02
def b02(ctx):
    S = r"tree_stack::TreeStack\b"

    def m(name, trait=None):
        return ctx.method(S, trait, name)

    def node(r, parent, value, children):
        if not is_adt(r, "TreeStack") and r.op != "upd":
            return False
        return parent(field(r, "parent")) and value(field(r, "value")) and children(field(r, "children"))

    f = m("new")
    if f:
        a, = args(f)
        one_value(ctx, "new", f, "a new tree stack has a root without children", lambda r, k: node(r, is_none, lambda x: x is a, empty_list))
    f = m("is_at_bottom")
    if f:
        s, = args(f)
        P = fld(s, "parent")
        t, no = bools(ctx.view(f))
        ctx.ob("bottom", only(t, P, "None", ["Some"]) and only(no, P, "Some", ["None"]), "the pointer is at the bottom iff there is no parent: " + showc(t), f)
    f = m("current_symbol")
    if f:
        s, = args(f)
        one_value(ctx, "current", f, "the current symbol is that of the node at the pointer", lambda r, k: r is fld(s, "value"))
    f = m("set")
    if f:
        s, a = args(f)
        one_value(ctx, "set", f, "set changes the current symbol, and nothing else", lambda r, k: not k and field(r, "value") is a and field(r, "parent") is fld(s, "parent") and
                  field(r, "children") is fld(s, "children"))
    # ---- push: a new node at a free position
    for name in ("push", "push_with"):
        f = m(name)
        if not f:
            continue
        s, n, a = args(f)
        ch = fld(s, "children")
        seen = set()
        v = ctx.view(f)
        for k, r in paths(v):
            r = under(r, k)
            old = None
            if is_ok(r) and is_some(field(payload(r), "parent")) and payload(field(payload(r), "parent")).op == "tuple":
                old = payload(field(payload(r), "parent")).a[-1]
            L = v.loops.get(old)
            mine = [ch] + ([fld(old, "children")] if L and L["init"] is s and all(field(b, x) is field(old, x) for b in L["back"] for x in ("value", "parent")) else [])
            if is_err(r):
                # children that were there are kept
                ctx.ob(name + ":taken", any(v and p.op == "is" and p.a[1] == "Some" and p.a[0].op == "idx" and p.a[0].a[1] is n for p, v in k),
                       "%s fails only if the position is taken: %s" % (name, showc(frozenset([k]))), f)
                continue
            if not is_ok(r):
                ctx.undecided(name, show(r), f)
                continue
            seen.add("free")
            free = [p for p, v in k if p.op == "is" and p.a[0].op == "idx" and p.a[0].a[1] is n and (p.a[1] == "Some" and not v or p.a[1] == "None" and v)]
            inside = [b for p, b in k if p is lt(n, length(ch))]
            ctx.ob(name + ":free", bool(free) or inside == [False], "a node is only pushed to a free position: " + showc(frozenset([k])), f)
            ctx.ob(name + ":only", all(p in free or p in [lt(n, length(c)) for c in mine] for p, v in k), "a node is pushed to every free position: " + showc(frozenset([k])), f)
            x = payload(r)
            isa = (lambda y: y is a) if name == "push" else (lambda y: is_call(y, "fnvalue") and y.a[1][0] is a)
            ctx.ob(name + ":node", node(x, is_some, isa, empty_list), "the new node has the given symbol and no children: " + show(x, 4), f)
            P = payload(field(x, "parent")) if is_some(field(x, "parent")) else None
            if P is None or P.op != "tuple" or len(P.a) != 2:
                ctx.ob(name + ":parent", False, "the parent and its position are kept: " + show(x, 5), f)
                continue
            old = P.a[1]
            ctx.ob(name + ":position", P.a[0] is n, "the new node is the n-th child: " + show(P.a[0]), f)
            ctx.ob(name + ":parent", len(mine) == 2 or field(old, "parent") is fld(s, "parent") and field(old, "value") is fld(s, "value"), "the old node is the parent: " + show(old, 5), f)
            L = v.loops.get(old)
            if L is not None:
                # places are added one after the other
                ctx.ob(name + ":children", all(first(OP("eff", CALL("push", fld(old, "children"), ADT("Option", "None")), 0), field(b, "children")) is not None for b in L["back"]),
                       "the other children are kept, and there is a place for the new one: " + "; ".join(show(b, 5) for b in L["back"]), f)
                continue
            pad = under(field(old, "children"), k)
            ctx.ob(name + ":children", padded(pad, ch, n, inside), "the other children are kept, and there is a place for the new one: " + show(pad, 6), f)
        ctx.ob(name + ":pushes", seen == {"free"}, "a node can be pushed", f)
    f = m("push_next")
    if f:
        s, a = args(f)
        ch = fld(s, "children")
        Q = CALL("TreeStack::push", s, V("n"), a)

        def taken(t):
            return first(ALT(IS(IX(ch, I("i")), "Some"), OP("not", OP("isv", IX(ch, I("i")), "None")), OP("isv", IX(ch, I("i")), "Some"), OP("not", IS(IX(ch, I("i")), "None"))), t) is not None
        for k, r in paths(ctx.view(f, noinline=lambda g: g["nname"].endswith("TreeStack::push"))):
            e = first(F(Q, "Ok:0"), r)
            if e is None:
                ctx.undecided("push_next", show(r), f)
                continue
            for c, n in alts(e["n"]):
                for k2 in c or [frozenset()]:
                    i = first(I("i"), n) is not None and any(p is mk("is", idx(ch, n), "Some") and not v for p, v in k2)
                    end = n is length(ch) and any(p.op == "more" and p.a[0] is ch and not v or p.op == "all" and v and taken(p.a[0]) for p, v in k2)
                    ctx.ob("push_next", i or end, "the new node is put at the first free position: %s if %s" % (show(n), showc(frozenset([k2]))), f)
    # ---- up and down
    f = m("up")
    if f:
        s, n = args(f)
        ch = fld(s, "children")
        gone = ALT(CALL("swap_remove", OP("eff", CALL("push", ch, ADT("Option", "None")), 0), n), CALL("take", IX(ch, n)), CALL("clone", IX(ch, n)), IX(ch, n))
        seen = set()
        for k, r in paths(ctx.view(f)):
            r = under(r, k)
            if is_err(r):
                seen.add("err")
                ctx.ob("up:none", any(not v and (p is lt(n, length(ch)) or first(IS(gone, "Some"), p) is not None) for p, v in k) or any(v and first(IS(gone, "None"), p) is not None for p, v in k),
                       "going up fails only if there is no such child: " + showc(frozenset([k])), f)
                continue
            if not is_ok(r):
                ctx.undecided("up", show(r), f)
                continue
            seen.add("ok")
            x = payload(r)
            C = F(gone, "Some:0")
            ctx.ob("up:there", any(v and first(IS(gone, "Some"), p) is not None for p, v in k), "going up needs the child: " + showc(frozenset([k])), f)
            ctx.ob("up:always", all(p is lt(n, length(ch)) or first(IS(gone, "Some"), p) is not None for p, v in k), "one can go up to every child: " + showc(frozenset([k])), f)
            ctx.ob("up:node", node(x, is_some, lambda y: first(F(C, "value"), y) is not None, lambda y: first(F(C, "children"), y) is not None),
                   "the pointer is at the child, with its symbol and its children: " + show(x, 6), f)
            P = payload(field(x, "parent")) if is_some(field(x, "parent")) else None
            if P is None or P.op != "tuple" or len(P.a) != 2:
                continue
            ctx.ob("up:position", P.a[0] is n, "the position of the child is kept: " + show(P.a[0]), f)
            old = under(P.a[1], k)
            rest = field(old, "children")
            ctx.ob("up:parent", field(old, "parent") is fld(s, "parent") and field(old, "value") is fld(s, "value"), "the old node is the parent: " + show(old, 5), f)
            hole = first(ALT(OP("eff", CALL("swap_remove", OP("eff", CALL("push", ch, ADT("Option", "None")), 0), n), 0)), rest) is not None or \
                rest.op == "upd" and rest.a[0] is ch and [x for x in rest.a[1]] and all(is_none(y) and pp == (("[]", n),) for pp, y in rest.a[1]) or \
                rest.op == "eff" and is_call(rest.a[0], "take", "replace") and first(IX(ch, n), rest.a[0].a[1][0]) is not None
            if rest is ch:
                ctx.ob("up:rest", False, "the child is not kept below its own position", f)
            elif not hole:
                ctx.undecided("up:rest", show(rest), f)
            else:
                ctx.ob("up:rest", True, "the other children are kept", f)
        ctx.ob("up:both", seen == {"ok", "err"}, "one can go up to a child, but not where there is none", f)
    f = m("down")
    if f:
        s, = args(f)
        P = field(fld(s, "parent"), "0", "Some")
        seen = set()
        for k, r in paths(ctx.view(f)):
            r = under(r, k)
            there = (mk("is", fld(s, "parent"), "Some"), True) in k
            if is_err(r):
                seen.add("err")
                ctx.ob("down:root", not there, "going down fails at the root only: " + showc(frozenset([k])), f)
                ctx.ob("down:root:kept", payload(r) is s or field(payload(r), "value") is fld(s, "value") and field(payload(r), "children") is fld(s, "children") and
                       (is_none(field(payload(r), "parent")) or field(payload(r), "parent") is fld(s, "parent")), "the tree stack stays as it is: " + show(r), f)
                continue
            if not is_ok(r):
                ctx.undecided("down", show(r), f)
                continue
            seen.add("ok")
            x = payload(r)
            pn, i = field(P, "1"), field(P, "0")
            ctx.ob("down:node", there and node(x, lambda y: y is field(pn, "parent"), lambda y: y is field(pn, "value"), lambda y: True),
                   "the pointer is at the parent, with its symbol and its own parent: " + show(x, 6), f)
            c = field(x, "children")
            if c.op != "upd" or len(c.a[1]) != 1:
                ctx.ob("down:children", False, "the node is stored as a child of its parent: " + show(c), f)
                continue
            (pp, y), = c.a[1]
            ctx.ob("down:children", c.a[0] is field(pn, "children") and pp == (("[]", i),), "the node is stored at its own position, and the other children are kept: " + show(c, 5), f)
            z = payload(y) if is_some(y) else y
            ctx.ob("down:child", is_some(y) and field(z, "value") is fld(s, "value") and field(z, "children") is fld(s, "children") and is_none(field(z, "parent")),
                   "the node is stored with its symbol and its children: " + show(y), f)
        ctx.ob("down:both", seen == {"ok", "err"}, "one can go down except from the root", f)
    f = m("ups")
    if f:
        s, = args(f)
        ch = fld(s, "children")
        for k, r in paths(ctx.view(f, noinline=lambda g: g["nname"].endswith("TreeStack::up"))):
            good = first(COLL(F(CALL("TreeStack::up", s, I("i")), "Ok:0"), [MORE(ch, I("i"))], [IS(IX(ch, I("i")), "Some"), IS(CALL("TreeStack::up", s, I("i")), "Ok")]), r) is not None
            ctx.ob("ups", good, "there is one tree stack for each child: " + show(r, 6), f)
    f = m("map")
    if f:
        s, g = args(f)
        for k, r in paths(ctx.view(f)):
            ch = fld(s, "children")
            ctx.ob("map:value", is_adt(r, "TreeStack") and is_call(field(r, "value"), "fnvalue") and any(x is fld(s, "value") for x in walk(field(r, "value"))), "the symbol is mapped: " + show(r, 4), f)
            par = alts(field(r, "parent"))
            for c, x in par:
                for k2 in c:
                    there = (mk("is", fld(s, "parent"), "Some"), True) in k2
                    y = payload(x) if is_some(x) else None
                    q = field(fld(s, "parent"), "0", "Some")
                    ctx.ob("map:parent", is_none(x) and not there or y is not None and there and y.op == "tuple" and y.a[0] is field(q, "0") and is_call(y.a[1], "map") and y.a[1].a[1][0] is field(q, "1"),
                           "the parent is mapped and stays at its position: " + show(x), f)
            cs = cases(field(r, "children"))
            for el, c in cs:
                for c2, x in alts(el):
                    y = payload(x) if is_some(x) else None
                    ctx.ob("map:children", is_none(x) or y is not None and is_call(y, "map") and first(F(IX(ch, I("i")), "Some:0"), y.a[1][0]) is not None, "every child is mapped and stays at its position: " +
                           show(x), f)
                ctx.ob("map:children:all", not [l for l in c if l[0].op not in ("more", "is")], "all children are mapped", f)
    f = m("all")
    if f:
        s, g = args(f)
        ch = fld(s, "children")
        for k, r in paths(ctx.view(f)):
            me = [v for p, v in k if is_call(p, "fnvalue") and p.a[1][0] is g and any(x is fld(s, "value") for x in walk(p))]
            under_me = [x for x in walk(r) if is_call(x, "all") and first(ALT(F(IX(ch, I("i")), "Some:0"), IX(IX(ch, I("i")), ANY)), x.a[1][0]) is not None]
            if r is TRUEV and any(p.op == "more" and p.a[0] is ch and not b for p, b in k) and me == [True]:
                # a loop that is left at the first child that fails
                ctx.ob("all", any(r2 is FALSEV and any(not b and is_call(p, "all") and first(F(IX(ch, I("i")), "Some:0"), p.a[1][0]) is not None for p, b in k2) for k2, r2 in paths(ctx.view(f))),
                       "a predicate holds iff it holds for the node and the trees of all its children", f)
            elif r is FALSEV:
                ctx.ob("all:false", me == [False] or len(k) > 1, "a predicate fails only if it fails for some node: " + showc(frozenset([k])), f)
            else:
                ctx.ob("all", me == [True] and any(x.op == "all" for x in walk(r)) and bool(under_me),
                       "a predicate holds iff it holds for the node and the trees of all its children: %s if %s" % (show(r), showc(frozenset([k]))), f)
    for f in ctx.methods(S, r"PartialEq", "eq"):
        s, o = args(f)
        yes, _ = bools(ctx.view(f))
        for k in yes:
            t = [p for p, v in k if v]
            for part in ("value", "children"):
                ctx.ob("eq:" + part, any(first(EQ(fld(s, part), fld(o, part)), p) is not None for p in t), "equal tree stacks have the same %s: %s" % (part, showc(frozenset([k]))), f)
            P, Q = fld(s, "parent"), fld(o, "parent")
            both = (mk("is", P, "Some"), True) in k and (mk("is", Q, "Some"), True) in k
            none = ((mk("is", P, "Some"), False) in k or (mk("is", P, "None"), True) in k) and ((mk("is", Q, "Some"), False) in k or (mk("is", Q, "None"), True) in k)
            same_ = any(first(EQ(P, Q), p) is not None for p in t)
            inner = both and any(first(EQ(field(field(P, "0", "Some"), "0"), field(field(Q, "0", "Some"), "0")), p) is not None for p in t) and \
                any(any(x is field(field(P, "0", "Some"), "1") for x in walk(p)) and any(x is field(field(Q, "0", "Some"), "1") for x in walk(p)) for p in t)
            ctx.ob("eq:parent", none or same_ or inner, "equal tree stacks have equal parents at the same position: " + showc(frozenset([k])), f)
    # ---------------------------------------------------------------- instructions
    f = ctx.method(r"TreeStackInstruction\b", r"Instruction\b", "apply")
    if f:
        s, t = args(f)
        keep = ("TreeStack::up", "TreeStack::push", "TreeStack::down")
        v = ctx.view(f, noinline=lambda g: g["nname"].endswith(keep))

        def arg(var, n):
            return field(s, n, var)
        me = lambda var: EQ(fld(t, "value"), arg(var, "current_val"))
        forms = {}
        for var, call in (("Up", CALL("TreeStack::up", t, arg("Up", "n"))), ("Down", CALL("TreeStack::down", t))):
            forms[var] = [me(var), IS(call, "Ok"), EQ(F(call, "Ok:0", "value"), arg(var, "old_val"))], call
        call = CALL("TreeStack::push", t, arg("Push", "n"), arg("Push", "new_val"))
        forms["Push"] = [me("Push")], call
        seen = set()
        for k, r in paths(v):
            vs = [x for x in ("Up", "Push", "Down") if (mk("is", s, x), True) in k]
            if len(vs) != 1:
                ctx.undecided("apply", showc(frozenset([k])), f)
                continue
            var = vs[0]
            need, call = forms[var]
            if empty_list(r):
                why = need + ([IS(call, "Ok")] if var == "Push" else [])
                ctx.ob("apply:%s:none" % var, any(not b and any(first(q, p) is not None for q in why) or b and first(IS(call, "Err"), p) is not None for p, b in k),
                       "an instruction has no result only if a symbol is another one or there is no such node: " + showc(frozenset([k])), f)
                continue
            seen.add(var)
            got = [(x, frozenset()) for x in list_of(r)] if list_of(r) else cases(r)
            ctx.ob("apply:%s:one" % var, len(got) == 1, "there is one result: " + show(r), f)
            for x, c in got:
                # a result as a list of at most one element
                c = frozenset((mk("is", p.a[0], "Ok"), b) if p.op == "more" and first(call, p.a[0]) is not None else (alone(p, call), b) for p, b in set(c) | set(k))
                x = alone(x, call)
                for q in need:
                    ctx.ob("apply:%s:applicable" % var, any(b and first(q, p) is not None for p, b in c), "an instruction is applied only to its current and old symbols: " + showc(frozenset([c])), f)
                extra = [(p, b) for p, b in c if not any(first(q, p) is not None for q in need + [IS(call, "Ok"), IS(call, "Err"), IS(s, var), IS(s, ANY)]) and not (p.op == "is" and p.a[0] is s) and p.op != "more"]
                ctx.ob("apply:%s:always" % var, not extra, "nothing else decides whether an instruction can be applied: " + showc(frozenset([frozenset(extra)])), f)
                if var == "Push":
                    ctx.ob("apply:Push", first(F(call, "Ok:0"), x) is not None, "a new node with the new symbol is pushed at the position: " + show(x), f)
                else:
                    ctx.ob("apply:" + var, first(arg(var, "new_val"), field(x, "value")) is not None and first(F(call, "Ok:0", "children"), field(x, "children")) is not None and
                           first(F(call, "Ok:0", "parent"), field(x, "parent")) is not None, "the pointer moves and the new symbol is written there: " + show(x), f)
        ctx.ob("apply:all", seen == {"Up", "Push", "Down"}, "every instruction can be applied", f)


def alone(t, call):
    """the element of a result with at most one element"""
    for x in [x for x in walk(t) if x.op == "idx" and first(call, x.a[0]) is not None]:
        t = subst(t, x, field(x.a[0], "0", "Ok"))
    return t


def padded(t, ch, n, inside):
    """the children, with places up to the n-th one"""
    if t is ch:
        return inside == [True]
    if t.op == "eff" and is_call(t.a[0], "resize") and t.a[0].a[1][0] is ch:
        return t.a[0].a[1][1] is add(n, const(1)) and is_none(t.a[0].a[1][2]) and inside != [True]
    if t.op == "eff" and is_call(t.a[0], "extend", "append") and t.a[0].a[1][0] is ch and inside != [True]:
        x = t.a[0].a[1][1]
        fe = [y for y in walk(x) if is_call(y, "from_elem")]
        return bool(fe) and all(is_none(y.a[1][0]) and y.a[1][1] in (add(sub(n, length(ch)), const(1)), sub(add(n, const(1)), length(ch))) for y in fe)
    return False
