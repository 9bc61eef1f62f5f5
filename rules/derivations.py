"""Rules about derivations: evaluation, normal forms, export."""
from base import *
from pat import *
from text import *
from words import Words, Undecided
from grammar import DONE, LISTS, comp_of, after_all, exact, list_of, lookup
from texts import expand_text

MAPS = ("BTreeMap", "HashMap")


def lists_over(t):
    return kind_of_coll(t) in LISTS and t.op in ("coll", "colls", "cat", "phi")


def address_of(parent, n):
    """the address of the n-th child"""
    return ALT(OP("eff", CALL("push", parent, n), 0), OP("cat", parent, ALT(COLL(n, []), OP("array", n))))


# ---------------------------------------------------------------- W01
def w01(ctx):
    f = ctx.fn(r"pmcfg::evaluate_pos$")
    if f:
        v = ctx.view(f)
        m, ad = (mk("arg", i, f["locals"][i]["name"] or "") for i in (1, 2))
        node = ALT(CALL("get", fld(m, "map"), ad), CALL("get", m, ad))
        C = F(ALT(F(node, "Some:0"), IX(fld(m, "map"), ad)), "composition")
        comp = IX(C, I("c"))
        X = IX(comp, I("s"))
        child = F(CALL("evaluate_pos", m, address_of(ad, F(X, "Var:0"))), "composition")
        sub_ = ALT(IX(child, F(X, "Var:1")), F(CALL("get", child, F(X, "Var:1")), "Some:0"))
        rets = paths(v)
        ctx.ob("returns", len(rets) >= 1, "a derivation is evaluated", f)
        for k, r in rets:
            ok_ = is_adt(r, "Composition") and lists_over(field(r, "composition"))
            ctx.ob("composition", ok_ and after_all(k), "the result is the list of the evaluated components: " + show(r, 4), f)
            if not ok_:
                continue
            cs = cases(field(r, "composition"))
            for el, c in cs:
                e = exact(ctx, "every-component", f, "every component is evaluated", c, [MORE(C, I("c"))], [IS(node, "Some")])
                if e is None:
                    continue
                ok_ = lists_over(el)
                ctx.ob("component", ok_, "a component is evaluated to the list of its symbols, in order: " + show(el, 4), f)
                if not ok_:
                    continue
                kinds = set()
                for s, c2 in cases(el):
                    opt = [MORE(C, I("c")), IS(node, "Some"), MORE(comp, I("s"))]
                    if is_adt(s, "VarT", "T") and first(ADT("VarT", "T", _0=F(X, "T:0")), s, e) or first(X, s, e):
                        kinds.add("T")
                        e2 = first(ADT("VarT", "T", _0=F(X, "T:0")), s, e) or first(X, s, e)
                        exact(ctx, "every-terminal", f, "every terminal is kept", c2, [IS(X, "T")], opt, e2)
                    else:
                        kinds.add("Var")
                        e2 = first(IX(sub_, I("t")), s, e)
                        ctx.ob("variable", e2 is not None, "a variable is replaced by the symbols of the component it refers to, of the evaluation of the successor it "
                               "refers to: " + show(s, 9), f)
                        exact(ctx, "every-variable", f, "all symbols of the component are inserted for a variable", c2, [IS(X, "Var"), MORE(sub_, I("t"))],
                              opt + [LT(F(X, "Var:1"), LEN(child)), IS(CALL("get", child, F(X, "Var:1")), "Some")], e2 or e)
                ctx.ob("both", kinds == {"T", "Var"}, "terminals and variables are evaluated, in order", f)
            ctx.ob("components", len(cs) == 1, "each component is evaluated once", f)
    g = ctx.fn(r"pmcfg::evaluate$")
    if g:
        m = mk("arg", 1, g["locals"][1]["name"] or "")
        v = ctx.view(g, noinline=lambda h: h is f)
        for k, r in paths(v):
            ctx.ob("root", bool(first(CALL("evaluate_pos", m, WHERE(V("a"), lambda e: empty_list(e["a"]))), r)) and not k,
                   "evaluation starts at the root: " + show(r, 6), g)
    t = ctx.fn(r"pmcfg::to_term$")
    if t:
        v = ctx.view(t)
        tm = fld(mk("arg", 1, t["locals"][1]["name"] or ""), "map")
        N_ = IX(tm, I("n"))
        for k, r in paths(v):
            parts = r.a if r.op == "tuple" and len(r.a) == 2 else (r, r)
            for i, (who, what) in enumerate((("composition", F(N_, "1", "composition")), ("head", F(N_, "1", "head")))):
                mp = field(parts[i], "map")
                e = first(COLL(TUP(F(N_, "0"), what), [MORE(tm, I("n"))], kinds=MAPS), mp)
                ctx.ob("term:" + who, e is not None and after_all(k), "the tree of all %ss, each at the address of its rule: %s" % (who, show(mp, 6)), t)
    h = ctx.method(r"pmcfg::PMCFGRule", None, "map_nonterminals")
    if h:
        s, fn = (mk("arg", i, h["locals"][i]["name"] or "") for i in (1, 2))
        v = ctx.view(h)
        app = lambda x: CALL(("fnvalue", "call", "call_once", "call_mut"), ANY, ALT(x, TUP(x)))
        for k, r in paths(v):
            ok_ = is_adt(r, "PMCFGRule")
            ctx.ob("map:rule", ok_, "a rule is made of a rule: " + show(r, 4), h)
            if ok_:
                ctx.ob("map:kept", field(r, "weight") is fld(s, "weight") and (field(r, "composition") is fld(s, "composition")),
                       "the composition and the weight are kept: %s, %s" % (show(field(r, "composition")), show(field(r, "weight"))), h)
                ctx.ob("map:head", first(app(fld(s, "head")), field(r, "head")) is not None, "the left-hand side is mapped: " + show(field(r, "head")), h)
                tl = fld(s, "tail")
                ctx.ob("map:tail", first(COLL(app(IX(tl, I("i"))), [MORE(tl, I("i"))]), field(r, "tail")), "each successor is mapped: " + show(field(r, "tail")), h)


def empty_list(t):
    return t.op == "call" and t.a[0].split("::")[-1] in ("new", "default") and not t.a[1] or t.op == "array" and not t.a


# ---------------------------------------------------------------- N01
def n01(ctx):
    f = ctx.fn(r"pmcfg::separate_terminal_rules$")
    if not f:
        return
    v = ctx.view(f)
    tm = fld(mk("arg", 1, f["locals"][1]["name"] or ""), "map")
    node = IX(tm, I("n"))
    rule, addr = F(node, "1"), F(node, "0")
    C = comp_of(rule)
    comp = IX(C, I("c"))
    X = IX(comp, I("s"))
    tail = F(rule, "tail")
    spec = ("", lambda q, a: q if a in "()" else (q + a)[:2], lambda q: q == "T")
    for k, r in paths(v):
        mp = field(r, "map")
        ok_ = is_adt(r, "GornTree") and mp.op in ("coll", "colls") and kind_of_coll(mp) in MAPS
        ctx.ob("tree", ok_ and after_all(k), "the result is a tree made of all rules: " + show(r, 4), f)
        if not ok_:
            continue
        kept, split, children = [], [], []
        for el, c in cases(mp):
            if el.op != "tuple":
                ctx.ob("node", False, "a node of the tree: " + show(el), f)
                continue
            for c2, val in alts(el.a[1]):
                for k2 in c_and(frozenset([c]), c2):
                    e = first_conj([MORE(tm, I("n"))], [], k2, rest=True)
                    if e is None:
                        ctx.ob("traversal", False, "each node comes from a node of the given tree: " + showc(frozenset([k2])), f)
                        continue
                    if not is_adt(val, "PMCFGRule"):
                        (kept if first(rule, val, e) else split).append((el.a[0], val, k2, e))
                    elif first(addr, el.a[0], e) is not None:
                        same_ = first(C, field(field(val, "composition"), "composition"), e) or first(F(rule, "composition"), field(val, "composition"), e)
                        (kept if same_ else split).append((el.a[0], val, k2, e))
                    else:
                        children.append((el.a[0], val, k2, e))
        ctx.ob("kinds", kept and split and children, "there are rules that are kept, rules that are changed, and rules for terminals", f)
        for ad, val, k2, e in kept:
            ok_ = first(addr, ad, e) is not None
            if is_adt(val, "PMCFGRule"):
                ok_ = ok_ and all(first(F(rule, x), field(val, x), e) for x in ("head", "tail", "weight"))
            ctx.ob("kept", ok_, "a kept rule stays as it is at its address: %s: %s" % (show(ad), show(val)), f)
        terms_ = set()
        for ad, val, k2, e in split:
            ok_ = is_adt(val, "PMCFGRule")
            ctx.ob("changed", ok_, "a changed rule: " + show(val), f)
            if not ok_:
                continue
            ctx.ob("changed:same", first(addr, ad, e) and all(first(F(rule, x), field(val, x), e) for x in ("head", "weight")),
                   "a changed rule keeps its address, left-hand side and weight: %s: %s" % (show(ad), show(val)), f)
            body = field(field(val, "composition"), "composition")
            cs = cases(body)
            ctx.ob("changed:composition", len(cs) == 1 and lists_over(body), "a changed rule has the components of the rule: " + show(body, 5), f)
            for x, c3 in cs:
                e3 = exact(ctx, "changed:components", f, "every component is kept", c3, [MORE(C, I("c"))], [MORE(tm, I("n"))], e)
                if e3 is None:
                    continue
                ctx.ob("changed:symbols", lists_over(x), "a component keeps the order of its symbols: " + show(x, 5), f)
                seen = set()
                for s, c4 in cases(x):
                    opt = [MORE(tm, I("n")), MORE(C, I("c")), MORE(comp, I("s"))]
                    if first_conj([IS(X, "Var")], opt, c4, e3) is not None:
                        seen.add("Var")
                        ctx.ob("variable", first(X, s, e3) or first(ADT("VarT", "Var", _0=F(X, "Var:0"), _1=F(X, "Var:1")), s, e3), "a variable stays: " + show(s), f)
                        continue
                    e4 = first_conj([IS(X, "T")], opt, c4, e3, rest=True)
                    ctx.ob("symbols", e4 is not None, "a symbol is a variable or a terminal: " + showc(frozenset([c4])), f)
                    if e4 is None:
                        continue
                    seen.add("T")
                    ok_ = is_adt(s, "VarT", "Var") and field(s, "1", "Var") is const(0)
                    ctx.ob("terminal", ok_, "a terminal becomes the first component of a new successor: " + show(s), f)
                    if ok_:
                        terms_.add((field(s, "0", "Var"), frozenset(e4.items())))
                ctx.ob("changed:both", seen == {"T", "Var"}, "variables and terminals are treated", f)
            tl = field(val, "tail")
            parts = appended(tl)
            ctx.ob("changed:tail", parts is not None and first(tail, parts[0], e), "the successors of a changed rule are those of the rule, then those for its terminals: " +
                   show(tl, 5), f)
        for s0, e in terms_:
            e = dict(e)
            for c, s in alts(s0):
                g = first(number(tail, X), s, e) or first(number_new(tail), s, e)
                g = g or first(CALL("or_insert", CALL("entry", WHERE(V("_m"), lambda e: numbering(e["_m"], tail, e)), F(X, "T:0")), number_new(tail)), s, e)
                ctx.ob("number", g is not None, "the successor of a terminal is the number given to this terminal, counting from the number of successors of the rule: " + show(s, 12), f)
        for ad, val, k2, e in children:
            ctx.ob("child", is_adt(val, "PMCFGRule") and first(F(rule, "weight"), field(val, "weight"), e) and empty_list(field(val, "tail")),
                   "the rule for a terminal has no successors and the weight of the rule: " + show(val), f)
            body = field(field(val, "composition"), "composition")
            inner = list_of(body) if list_of(body) and len(list_of(body)) == 1 else None
            sy = list_of(inner[0]) if inner else None
            t = field(sy[0], "0", "T") if sy and len(sy) == 1 and is_adt(sy[0], "VarT", "T") else None
            ctx.ob("child:composition", t is not None, "the rule for a terminal has one component with one terminal: " + show(body, 6), f)
            if t is None:
                continue
            ok_ = ad.op == "eff" and is_call(ad.a[0], "push") and first(addr, ad.a[0].a[1][0], e)
            n = ad.a[0].a[1][1] if ok_ else None
            ctx.ob("child:address", n is not None and (first(number(tail, t), n, e) or first(number_new(tail), n, e)),
                   "the rule for a terminal is the child with the number of this terminal: " + show(ad, 9), f)
        # which rules are kept
        groups = {}
        for what, xs in (("kept", kept), ("changed", split)):
            for _, _, k2, e in xs:
                own = frozenset((p, x) for p, x in k2 if p.op != "more")
                groups.setdefault(what, set()).add(own)
        for what, dn in sorted(groups.items()):
            try:
                w = Words(v, C).differs(frozenset(dn), spec if what == "kept" else (spec[0], spec[1], lambda q: q != "T"))
                ctx.ob("which:" + what, w is None, "exactly the rules with one terminal and no other symbol are kept; a rule with the symbols %s is %s" %
                       (w or "()", "kept or changed wrongly"), f)
            except Undecided as x:
                ctx.undecided("which:" + what, str(x), f)


def appended(t):
    """(first part, second part) of a concatenation"""
    if t.op == "eff" and t.a[1] == 0 and is_call(t.a[0], "append", "extend", "extend_from_slice"):
        return t.a[0].a[1][0], t.a[0].a[1][1]
    if t.op == "cat":
        return t.a[0], t.a[1]
    return None


def terminals_of(X):
    return ANY


def number(tail, t):
    """the number remembered for a terminal"""
    m = WHERE(V("_m"), lambda e: numbering(e["_m"], tail, e))
    t = t if isinstance(t, T) else F(t, "T:0")
    return ALT(F(CALL("get", m, t), "Some:0"), IX(m, t), CALL("or_insert", CALL("entry", m, t), number_new(tail)))


def number_new(tail):
    """the next number"""
    return WHERE(V("_n"), lambda e: new_number(e["_n"], tail, e))


def new_number(n, tail, e):
    return n.op == "add" and len(n.a[0]) == 2 and any(first(LEN(tail), x, e) and (y.op == "pos" or y.op == "len" or y.op == "call") for x, y in (n.a[0], n.a[0][::-1]))


def numbering(m, tail, e):
    return m.op == "coll" and m.a[3].startswith("first:") and m.a[0].op == "tuple" and m.a[0].a[0].op == "f" and m.a[0].a[0].a[1:] == ("0", "T") and \
        new_number(m.a[0].a[1], tail, e)


# ---------------------------------------------------------------- X01
def calls_fn(ctx, g, names):
    for bb in g["bbs"]:
        t = str(bb)
        if any(n in t for n in names):
            return True
    return False


def parent(a):
    """the address of the parent of a node"""
    return OP("eff", CALL("pop", a), 0)


def no_parent(a):
    return ALT(EQ(LEN(a), const(0)), CALL("is_empty", a))


def node_number(ctx, f, v, key, t, addr, opt):
    """t is the number of the node at an address: the remembered one, 0 for the root, or the next one"""
    seen = set()
    for c, x in alts(t):
        ks = list(c) or [frozenset()]
        e = first(F(CALL("get", V("m"), V("a")), "Some:0"), x) or first(IX(V("m"), V("a")), x)
        if e and same_address(e["a"], addr):
            seen.add("known")
            continue
        if x is const(0):
            seen.add("root")
            ctx.ob(key + ":root", all(any(pol and first(no_parent(V("a")), p) and same_address(first(no_parent(V("a")), p)["a"], addr) for p, pol in k) for k in ks),
                   "only the root has the number 0: " + showc(c), f)
            continue
        seen.add("next")
        ctx.ob(key + ":next", all(any(not pol and first(no_parent(V("a")), p) and same_address(first(no_parent(V("a")), p)["a"], addr) for p, pol in k) for k in ks),
               "only nodes other than the root get a new number: " + showc(c), f)
        ctx.ob(key + ":new", all(not any(pol and p.op == "is" and is_call(p.a[0], "get") and p.a[1] == "Some" for p, pol in k) for k in ks),
               "only nodes that do not have a number yet get a new one: " + showc(c), f)
        b = base_of(v, x)
        if b is not None:
            ctx.ob(key + ":counter", b == 500, "the numbers of the nodes count from 500: " + show(x, 4), f)
        w = steps_of(v, x)
        if w is not None:
            ctx.ob(key + ":once", w, "no two nodes get the same number: " + show(x, 4), f)
    ctx.ob(key, seen == {"known", "root", "next"}, "a node has the number it already has, the root has 0, other nodes get the next number: " + show(t, 5), f)


def same_address(a, b):
    return a is b or first(b, a) is not None


def sum_of(x):
    """(summand that is not a constant or None, constant)"""
    if x.op == "c":
        return None, num_of(x)
    if x.op == "sub" and len(x.a) == 2 and x.a[1].op == "c":
        y, n = sum_of(x.a[0])
        return y, n - num_of(x.a[1])
    if x.op == "add":
        rest = [y for y in x.a[0] if y.op != "c"]
        if len(rest) == 1:
            y, n = sum_of(rest[0])
            return y, n + sum(num_of(z) for z in x.a[0] if z.op == "c")
    return x, 0


def steps_of(v, x, seen=None):
    """does a counter only grow, by one at a time: None if it is no counter of a loop"""
    seen = set() if seen is None else seen
    y, n = sum_of(x)
    if y is None:
        return False
    if y.op == "phi":
        rs = [steps_of(v, val, seen) for _, val in alts(y)]
        return False if False in rs else None if None in rs else True
    if y.op != "loop" or y not in v.loops:
        return None
    if y in seen:
        return True
    seen.add(y)
    rs = []
    for b in v.loops[y]["back"]:
        for _, val in alts(b):
            z, m = sum_of(val)
            if z is not None and z.op == "phi":
                rs.append(steps_of(v, z, seen))
            elif z is not None and z.op != "loop":
                rs.append(None)
            else:
                rs.append(z is not None and m in (0, 1) and steps_of(v, z, seen))
    return False if False in rs else None if None in rs else True


def base_of(v, x):
    """the first value of a counter; None if it is not a counter, 'const' if it never changes"""
    if x.op == "c":
        return "const"
    off, core = 0, x
    while core.op in ("add", "sub", "pair", "chk"):
        if core.op == "sub" and len(core.a) == 2 and core.a[1].op == "c":
            off -= num_of(core.a[1])
            core = core.a[0]
        elif core.op == "add":
            xs = list(core.a[0])
            cs = [y for y in xs if y.op == "c"]
            rest = [y for y in xs if y.op != "c"]
            if len(rest) != 1:
                return None
            off += sum(num_of(y) for y in cs)
            core = rest[0]
        else:
            return None
    if is_call(core, "count"):
        return off
    if core.op == "loop":
        L = v.loops.get(core)
        if L and L["init"] is not None and all(b is core for b in L["back"]):
            return "const"
    return None


def x01(ctx):
    # ---- which derivations can be written
    m = ctx.fn(r"negra::meets_negra_criteria$")
    if m:
        v = ctx.view(m)
        tm = fld(mk("arg", 1, m["locals"][1]["name"] or ""), "map")
        C = comp_of(F(IX(tm, I("n")), "1"))
        try:
            good_, bad = bools(v)
            ctx.ob("criteria:all", bool(good_) and all(after_all(k) for k in good_), "all rules of the derivation are examined", m)
            own = frozenset(frozenset((p, x) for p, x in k if not (p.op == "more" and first(MORE(tm, I("n")), p))) for k in bad)
            w = Words(v, C)
            step = lambda q, a: q if a in "()" or q == "bad" else {"": a, "V": "V" if a == "V" else "bad", "T": "bad"}[q]
            at = frozenset(k for k in own if any(p.op == "more" and v_ for p, v_ in k))
            d = w.differs(own - at, ("", step, lambda q: q == "bad"), at)
            ctx.ob("criteria", d is None, "exactly the rules with only variables and those with one terminal can be written; a rule with the symbols %s is treated otherwise" %
                   (d or "()"), m)
        except Undecided as u:
            ctx.undecided("criteria", str(u), m)
    # ---- the rows
    rows = [g for g in ctx.fns(r"pmcfg::negra::") if not re.search(r"::tests?::", g["nname"]) and calls_fn(ctx, g, ("pmcfg::evaluate",))]
    t = ctx.fn(r"negra::to_negra$")
    f = rows[0] if len(rows) == 1 else ctx.fn(r"negra::to_negra_vector$")
    if f and f is not t:
        ev = ctx.fn(r"pmcfg::evaluate$"), ctx.fn(r"pmcfg::to_term$")
        v = ctx.view(f, noinline=lambda g: g in ev)
        d = mk("arg", 1, f["locals"][1]["name"] or "")
        term = CALL("to_term", d)
        HM = ALT(F(term, "1", "map"), F(term, "1"))
        CM = F(term, "0", "map")
        node = IX(CM, I("n"))
        S = IX(IX(F(node, "1", "composition"), I("nc")), I("ns"))
        for k, r in paths(v):
            ctx.ob("all", after_all(k), "all terminals and nodes are written: " + showc(frozenset([k])), f)
            leaves, inner = [], []
            for el, c in cases(r):
                if el.op != "tuple" or len(el.a) != 3:
                    ctx.ob("row", False, "a row has a word or node, a label and the number of its parent: " + show(el, 3), f)
                    continue
                (leaves if first(CALL("evaluate", ANY), el.a[1]) is not None or any(is_call(x, "evaluate") for x in walk(el.a[1])) else inner).append((el, c))
            ctx.ob("rows", len({x for x, _ in leaves}) == 1 and len({x for x, _ in inner}) == 1, "there is a row for each terminal and then one for each node", f)
            order_ = parts_of(r)
            ctx.ob("order", order_ is None or any(is_call(x, "evaluate") for el, _ in cases(order_[0]) for x in walk(el.a[1] if el.op == "tuple" else el)),
                   "the terminals are written before the nodes", f)
            for el, c in leaves:
                evs = [x for x in walk(el.a[1]) if is_call(x, "evaluate")]
                E = F(evs[0], "composition")
                tree = field(evs[0].a[1][0], "map")
                X = IX(IX(E, I("c")), I("s"))
                ID = F(X, "T:0")
                # identified terminals
                ids = [y for y in cases(tree) if y[0].op == "tuple"] if tree.op in ("coll", "colls") else []
                ident = addr_field = None
                ctx.ob("identified:tree", len(ids) == 1 and first(F(node, "0"), ids[0][0].a[0]) is not None,
                       "each terminal is identified in the rule at its address: " + show(tree, 3), f)
                for y, c1 in ids:
                    for comp_, c2 in cases(field(y.a[1], "composition")):
                        kinds = set()
                        for s, c3 in cases(comp_):
                            if is_adt(s, "VarT", "T"):
                                kinds.add("T")
                                ident = field(s, "0", "T")
                            else:
                                kinds.add("Var")
                                ctx.ob("identified:variable", first(ALT(S, ADT("VarT", "Var", _0=F(S, "Var:0"), _1=F(S, "Var:1"))), s) is not None, "variables stay as they are: " +
                                       show(s), f)
                            exact(ctx, "identified:symbols", f, "each symbol of the rule is kept", c3, [IS(S, "T" if is_adt(s, "VarT", "T") else "Var")],
                                  [MORE(ANY, I("n")), MORE(ANY, I("nc")), MORE(ANY, I("ns"))])
                        ctx.ob("identified:both", kinds == {"T", "Var"}, "terminals and variables are treated", f)
                if ident is not None:
                    parts = list(ident.a) if ident.op == "tuple" else [x for _, x in ident.a[2]] if ident.op == "adt" and isinstance(ident.a[2], tuple) else []
                    names = [str(i) for i in range(len(parts))] if ident.op == "tuple" else [n for n, _ in ident.a[2]] if parts else []
                    for n, x in zip(names, parts):
                        if first(F(node, "0"), x) is not None:
                            addr_field = n
                        else:
                            ctx.ob("identified:number", unique_in_rule(x), "two terminals of a rule are told apart by their position: " + show(x, 5), f)
                    ctx.ob("identified:address", addr_field is not None and len(parts) == 2, "a terminal is identified by the address of its rule and a number: " +
                           show(ident, 4), f)
                if addr_field is None:
                    continue
                A = F(ID, addr_field)
                need = [MORE(E, I("c")), MORE(IX(E, I("c")), I("s"))]
                lab = lookup(HM, A)
                ctx.ob("leaf:label", first(ALT(CALL("to_string", lab), lab), el.a[1]) is not None, "the label of a terminal is the left-hand side of the rule it occurs in: " +
                       show(el.a[1], 3), f)
                words = {}
                for cw, x in alts(el.a[0]):
                    frm = any(p.op == "is" and p.a[1] == "FromPos" and pol for k2 in cw for p, pol in k2) or \
                        any(p.op == "is" and p.a[1] == "Default" and not pol for k2 in cw for p, pol in k2)
                    words.setdefault("FromPos" if frm else "Default", []).append(x)
                ctx.ob("leaf:modes", set(words) == {"FromPos", "Default"}, "a terminal is written as it is, or as the word given for it", f)
                for x in words.get("Default", []):
                    e = first(CALL("to_string", lookup(V("m"), ID)), x)
                    ok_ = e is not None and e["m"].op == "coll" and e["m"].a[0].op == "tuple" and e["m"].a[0].a[0] is ident and \
                        first(F(S, "T:0"), e["m"].a[0].a[1]) is not None
                    ctx.ob("leaf:word", ok_, "the word of a terminal is the terminal: " + show(x, 4), f)
                for x in words.get("FromPos", []):
                    src = lambda y: any(z.op == "f" and z.a[1:] == ("0", "FromPos") for z in walk(y))
                    ok_ = first(CALL("to_string", ALT(CALL("remove", ANY, const(0)), F(CALL(("next", "pop_front"), ANY), "Some:0"), IX(ANY, ANY))), x) is not None and src(x)
                    ctx.ob("leaf:given", ok_, "the word of a terminal is the next given word: " + show(x, 4), f)
                for k2 in [c]:
                    left = [(p, pol) for p, pol in k2 if not (first(ALT(MORE(ANY, ANY), IS(X, "T"), IS(CALL("get", ANY, ANY), "Some"), IS(ANY, "FromPos"), IS(ANY, "Default"), CALL("contains_key", ANY, ANY),
                                                                       no_parent(ANY)), p) is not None)]
                    ctx.ob("leaf:all", not left, "every terminal of the sentence has a row: " + showc(frozenset([frozenset(left)])), f)
                node_number(ctx, f, v, "leaf:parent", el.a[2], parent(A), [])
            for el, c in inner:
                q = first(CALL("to_string", lookup(HM, V("a"))), el.a[1]) or first(lookup(HM, V("a")), el.a[1])
                ctx.ob("inner:label", q is not None, "the label of a node is its left-hand side: " + show(el.a[1], 3), f)
                if q is None:
                    continue
                src = q["a"].a[0] if q["a"].op == "f" else None
                ps = text_of_value(v, el.a[0])
                ok_ = src is not None and first_text(["#", D(V("n"))], ps) is not None
                n = first_text(["#", D(V("n"))], ps)["n"] if ok_ else None
                ctx.ob("inner:name", ok_ and n.op == "f" and n.a[0] is src and n is not q["a"], "a node is written as # and its number: " + showt(ps), f)
                ctx.ob("inner:order", src is None or not any(is_call(x, "pop_back") for x in walk(src)) and not any(is_call(x, "Vec::pop") and x is src.a[0] for x in walk(src)),
                       "the nodes are written in the order of their numbers: " + (show(src, 3) if src is not None else ""), f)
                for k2 in [c]:
                    left = [(p, pol) for p, pol in k2 if not (first(ALT(MORE(ANY, ANY), IS(CALL("get", ANY, q["a"]), "Some"), IS(ANY, "Some"), CALL("contains_key", ANY, ANY)), p) is not None or
                                                             not pol and first(no_parent(ANY), p) is not None)]
                    ctx.ob("inner:all", not left, "every node but the root has a row: " + showc(frozenset([frozenset(left)])), f)
                node_number(ctx, f, v, "inner:parent", el.a[2], parent(q["a"]), [])
        # every new number is remembered and its node is written
        rem, que, evs = [], [], []
        for x in v.events:
            if x.kind != "call" or len(x.args) < 2:
                continue
            last = x.path.split("::")[-1]
            if last == "insert" and len(x.args) == 3 and is_eff_pop(x.args[1]):
                rem.append((x.args[1], x.args[2]))
                evs.append(("remembered:always", x))
            if last in ("push_back", "push") and x.args[1].op == "tuple" and len(x.args[1].a) == 2 and is_eff_pop(x.args[1].a[0]):
                que.append((x.args[1].a[0], x.args[1].a[1]))
                evs.append(("queued:always", x))
        # ... always: whether it is new, and nothing else, decides about that
        new_ = ALT(MORE(ANY, ANY), CALL("contains_key", ANY, ANY), no_parent(ANY))
        for k, ev in evs:
            left = [(p, pol) for kk in ev.cond for p, pol in kk if p.op != "is" and first(new_, p) is None]
            ctx.ob(k, not left, "each new number is remembered, and the node gets a row: " + showc(frozenset([frozenset(left)])), f)
        ctx.ob("remembered", rem and que and set(rem) == set(que), "each new number is remembered for its node, and the node is written with this number: %s / %s" %
               ([show(y, 3) for _, y in rem], [show(y, 3) for _, y in que]), f)
    # ---- the text
    n = ctx.fn(r"negra::noparse$")
    if n:
        v = ctx.view(n)
        s, i, mo = (mk("arg", j, n["locals"][j]["name"] or "") for j in (1, 2, 3))
        given = F(mo, "FromPos:0")
        tail = ['#500\tNOPARSE\t--\t--\t0\n#EOS ', D(i)]
        got = set()
        for c, r in v.returns():
            for c2, ps in expand_text(text_of_value(v, r)):
                a = first_text(['#BOS ', D(i), '\n', REP([MORE(s, I("w"))], [D(IX(s, I("w"))), '\t--\t--\t--\t500\n'])] + tail, ps)
                b = first_text(['#BOS ', D(i), '\n', [[REP([MORE(s, I("w")), MORE(given, I("w"))], [D(IX(given, I("w"))), '\t', D(IX(s, I("w"))), '\t--\t--\t500\n'])],
                                                    [REP([MORE(s, I("w"))], [D(IX(given, I("w"))), '\t', D(IX(s, I("w"))), '\t--\t--\t500\n'])]]] + tail, ps)
                ctx.ob("noparse", a is not None or b is not None, "a sentence without a parse is written with all its words below one node: " + showt(ps), n)
                got.add("a" if a is not None else "b")
        ctx.ob("noparse:modes", got == {"a", "b"}, "both kinds of words are written", n)
    if t:
        v = ctx.view(t, noinline=lambda g: g is f or g is m)
        i = mk("arg", 2, t["locals"][2]["name"] or "")
        R = CALL(f["nname"].split("::")[-1], mk("arg", 1, t["locals"][1]["name"] or ""), mk("arg", 3, t["locals"][3]["name"] or "")) if f is not t else ANY
        x = IX(R, I("i"))
        rets = v.returns()
        ctx.ob("text:returns", len(rets) >= 1, "the text is returned", t)
        for c, r in rets:
            for c2, ps in expand_text(text_of_value(v, r)):
                ctx.ob("text", first_text(['#BOS ', D(i), '\n', REP([MORE(R, I("i"))], [D(F(x, "0")), '\t', D(F(x, "1")), '\t--\t--\t', D(F(x, "2")), '\n']), '#EOS ', D(i)],
                                          ps) is not None, "each row is written on a line with its five columns, between #BOS and #EOS with the number of the sentence: " + showt(ps), t)


def is_eff_pop(t):
    return t.op == "eff" and t.a[1] == 0 and is_call(t.a[0], "pop")


def parts_of(t):
    return appended(t)


def unique_in_rule(x):
    """is a number different for any two terminals of a rule"""
    for c in walk(x):
        if is_call(c, "count") and c.a[1][0].op == "coll":
            ks = c.a[1][0].a[1]
            full = all(sum(1 for p, v in k if p.op == "more" and v) >= 2 for k in ks)
            rest = all(all(p.op == "more" or p.op == "is" and p.a[1] == "T" for p, v in k) for k in ks)
            if full and rest:
                return True
    return any(c.op == "ord" for c in walk(x))


def num_of(t):
    return t.a[1]
