"""Rules about grammar objects: MCFGs, LCFRSs, conversions between grammar formalisms, evaluation of derivations."""
from base import *
from pat import *
from containers import base_of

DONE = (MORE(ANY, ANY), False)      # an inner traversal has ended
SETS = ("BTreeSet", "HashSet")
LISTS = ("Vec", "VecDeque", "")


def sym(comp, c="c", s="s"):
    """a symbol of a composition and the literals that introduce it"""
    x = IX(IX(comp, I(c)), I(s))
    return x, [MORE(comp, I(c)), MORE(IX(comp, I(c)), I(s))]


def comp_of(rule):
    return F(rule, "composition", "composition")


def after_all(k):
    """no traversal is left before its end"""
    return not any(p.op == "more" and v for p, v in k)


def exact(ctx, key, f, text, k, lits, opt=(), env=None):
    e = first_conj(lits, list(opt) + [DONE], k, env)
    ctx.ob(key, e is not None, text + "; here: " + showc(frozenset([k])), f)
    return e


# ---------------------------------------------------------------- M01
def m01(ctx):
    f = ctx.fn(r"mcfg::Mcfg::from_pmcfg$")
    if f:
        v = ctx.view(f)
        g = mk("arg", 1, f["locals"][1]["name"] or "")
        rules = fld(g, "rules")
        init = fld(g, "initial")
        R = IX(rules, I("i"))
        X, intro = sym(comp_of(R))
        var = IS(X, "Var")
        key = TUP(F(X, "Var:0"), F(X, "Var:1"))
        held = COLL(key, intro + [var], kinds=SETS)
        dup = [MORE(rules, I("i"))] + intro + [var, (CALL("insert", held, key), False)]
        dup2 = [MORE(rules, I("i"))] + intro + [var, (CALL(("contains",), held, key), True)]
        one = mk("eq", length(init), const(1))
        seen = set()
        for k, r in paths(v):
            if is_none(r):
                for k in expand1(k):
                    if (one, False) in k:
                        seen.add("initial")
                        ctx.ob("initial:rejects", all(p is one or p.op in ("more", "all") and (p.op == "all") == x for p, x in k),
                               "more or less than one initial nonterminal is rejected under no further condition: " + showc(frozenset([k])), f)
                        continue
                    e = first_conj(dup, [DONE], k) or first_conj(dup2, [DONE], k)
                    ctx.ob("twice:rejects", e is not None, "a PMCFG is rejected for a rule with the same variable twice among all its symbols; here: " +
                           showc(frozenset([k])), f)
                    if e:
                        seen.add("twice")
            elif is_some(r):
                m = payload(r)
                ctx.ob("accepts:all-seen", after_all(k), "a grammar is accepted only after all rules have been checked: " + showc(frozenset([k])), f)
                ok_ = is_adt(m, "Mcfg") and field(m, "rules") is rules
                ctx.ob("accepts:rules", ok_, "the rules are kept: " + show(m), f)
                i = field(m, "initial") if is_adt(m, "Mcfg") else m
                el = first(ALT(F(CALL(("pop", "pop_front", "pop_back", "next"), init), "Some:0"), CALL(("remove", "swap_remove"), init, const(0)),
                               IX(init, const(0)), IX(init, I("p"))), i)
                ctx.ob("accepts:initial", el is not None and (one, True) in k, "the only initial nonterminal is kept: %s if %s" % (show(i), showc(frozenset([k]))), f)
            else:
                ctx.ob("value", False, "the result is an MCFG or none: " + show(r), f)
        ctx.ob("twice", "twice" in seen, "a rule that uses a variable twice is rejected", f)
        ctx.ob("initial", "initial" in seen, "a PMCFG without exactly one initial nonterminal is rejected", f)
    same_rules(ctx, r"Mcfg<", r"From<.*Lcfrs<", "Mcfg", "initial", "init", "mcfg-from-lcfrs")
    p = ctx.method(r"pmcfg::PMCFG<", r"From<.*Mcfg<", "from")
    if p:
        for k, r in paths(ctx.view(p)):
            a = mk("arg", 1, p["locals"][1]["name"] or "")
            ctx.ob("pmcfg-from-mcfg", not k and is_adt(r, "PMCFG") and field(r, "rules") is fld(a, "rules") and
                   list_of(field(r, "initial")) == [fld(a, "initial")], "the rules and the initial nonterminal are kept: " + show(r), p)
    for ty, fs in (("Mcfg", ("rules", "initial")), ("Lcfrs", ("rules", "init"))):
        d = ctx.method(r"%s<" % ty, None, "destruct")
        if d:
            a = mk("arg", 1, d["locals"][1]["name"] or "")
            for k, r in paths(ctx.view(d)):
                ctx.ob("destruct:" + ty, not k and r.op == "tuple" and r.a == (fld(a, fs[0]), fld(a, fs[1])), "taking a grammar apart yields its parts: " + show(r), d)
    d = ctx.method(r"Mcfg<", None, "new")
    if d:
        a = [mk("arg", i, d["locals"][i]["name"] or "") for i in (1, 2)]
        for k, r in paths(ctx.view(d)):
            ctx.ob("new", not k and is_adt(r, "Mcfg") and field(r, "rules") is a[0] and field(r, "initial") is a[1], "a grammar has the parts it is made of: " + show(r), d)


def list_of(t):
    """elements of a list literal"""
    if t.op == "array":
        return list(t.a)
    if is_call(t, "into_vec", "box_assume_init_into_vec_unsafe", "from") and t.a[1] and t.a[1][0].op in ("array", "call", "adt"):
        return list_of(t.a[1][0])
    arr = [x for x in walk(t) if x.op == "array"]
    if t.op in ("call", "adt", "eff") and len(arr) == 1:
        return list(arr[0].a)
    return None


def same_rules(ctx, ty, tr, name, ini, src_ini, who):
    d = ctx.method(ty, tr, "from")
    if d:
        a = mk("arg", 1, d["locals"][1]["name"] or "")
        for k, r in paths(ctx.view(d)):
            ctx.ob(who, not k and is_adt(r, name) and field(r, "rules") is fld(a, "rules") and field(r, ini) is fld(a, src_ini),
                   "the rules and the initial nonterminal are kept: " + show(r), d)


# ---------------------------------------------------------------- L01
def fan_map(rules, o="o"):
    r = IX(rules, I(o))
    return COLL(TUP(F(r, "head"), LEN(comp_of(r))), [MORE(rules, I(o))], kinds=("first:HashMap", "first:BTreeMap", "HashMap", "BTreeMap"))


def lookup(m, key):
    """the value a map has for a key"""
    return ALT(F(CALL("get", m, key), "Some:0"), IX(m, key))


def occurrences(comp):
    X, intro = sym(comp, "vc", "vs")
    return COLL(TUP(F(X, "Var:0"), F(X, "Var:1")), intro + [IS(X, "Var")], kinds=("group:Vec",))


def l01(ctx):
    f = ctx.fn(r"lcfrs::Lcfrs::new$")
    if f:
        v = ctx.view(f)
        rules, init = [mk("arg", i, f["locals"][i]["name"] or "") for i in (1, 2)]
        FM = fan_map(rules)
        R = IX(rules, I("i"))
        O = IX(rules, I("j"))
        inconsistent = [MORE(rules, I("j")), (EQ(LEN(comp_of(O)), ALT(CALL("Entry::or_insert", CALL("entry", FM, F(O, "head")), LEN(comp_of(O))),
                                                                       lookup(FM, F(O, "head")))), False)]
        inc_opt = [IS(CALL("get", FM, F(O, "head")), "Some"), (IS(CALL("entry", FM, F(O, "head")), "Vacant"), False), DONE]
        initial = [[(EQ(lookup(FM, init), const(1)), False)]]
        no_rule = [[(IS(CALL("get", FM, init), "Some"), False)]]
        nt = IX(F(R, "tail"), I("t"))
        undefined = [MORE(rules, I("i")), MORE(F(R, "tail"), I("t")), ALT(IS(CALL("get", FM, nt), "Some"), CALL("contains_key", FM, nt))]
        undefined = [undefined[0], undefined[1], (undefined[2], False)]
        occ = occurrences(comp_of(R))
        nvars = [MORE(rules, I("i")), LT(LEN(F(R, "tail")), LEN(occ))]
        alldef = P("op", "all", ANY, ANY)
        want = COLL(I("k"), [LT(I("k"), lookup(FM, IX(F(R, "tail"), I("q"))))], kinds=LISTS)
        mine = PHI(([MORE(occ, I("q"))], [], IX(occ, I("q"))), ([(MORE(occ, I("q")), False)], [], CALL(("default", "new"))))
        have = OP("eff", CALL(("sort", "sort_unstable"), mine), 0)
        linear = [MORE(rules, I("i")), MORE(F(R, "tail"), I("q")), (EQ(have, want), False)]
        # ... or in two steps: their number, and each of them
        wanted = lookup(FM, IX(F(R, "tail"), I("q")))
        number_ = [MORE(rules, I("i")), MORE(F(R, "tail"), I("q")), (EQ(wanted, LEN(have)), False)]
        every = [MORE(rules, I("i")), MORE(F(R, "tail"), I("q")), MORE(have, I("p")), (EQ(I("p"), IX(have, I("p"))), False)]
        lin_opt = [DONE, (alldef, True), (LT(LEN(F(R, "tail")), LEN(occ)), False), EQ(wanted, LEN(have)), LT(I("p"), wanted)]
        reasons = {"consistent fanouts": [(inconsistent, inc_opt)], "fanout one of the initial nonterminal": [(x, [DONE, IS(CALL("get", FM, init), "Some")]) for x in initial],
                   "a rule for the initial nonterminal": [(x, [DONE]) for x in no_rule],
                   "defined nonterminals": [(undefined, [DONE])], "only variables of its successors": [(nvars, [DONE, (alldef, True)])],
                   "each variable exactly once": [(linear, lin_opt)],
                   "each variable exactly once (number)": [(number_, lin_opt)], "each variable exactly once (each)": [(every, lin_opt)]}
        skip = [EQ(lookup(FM, init), const(1)), IS(CALL("get", FM, init), "Some"), DONE]
        hit = set()
        for k, r in paths(v):
            if is_none(r):
                for k2 in expand1(k):
                    found = None
                    for name, ways in reasons.items():
                        for lits_, opt in ways:
                            if first_conj(lits_, list(opt) + skip, k2) is not None:
                                found = name
                    ctx.ob("rejects-only", found is not None, "rules are rejected only for one of: %s; here: %s" % (", ".join(sorted(reasons)), showc(frozenset([k2]))), f)
                    if found:
                        hit.add(found)
            elif is_some(r):
                m = payload(r)
                ctx.ob("accepts", is_adt(m, "Lcfrs") and field(m, "rules") is rules and field(m, "init") is init, "an accepted grammar has the given parts: " + show(m), f)
                ctx.ob("accepts:all-seen", after_all(k), "a grammar is accepted only after all rules have been checked: " + showc(frozenset([k])), f)
        if "each variable exactly once (number)" in hit and "each variable exactly once (each)" in hit:
            hit.add("each variable exactly once")
        for name in (n for n in reasons if "(" not in n):
            ctx.ob("rejects:" + name, name in hit, "a grammar is rejected if it violates: " + name, f)
        pan = [x for x in v.events if x.kind == "panic" or x.kind == "call" and x.path == "std::ops::Index::index" and has(x.args[0], lambda t: t.op == "coll" and t.a[3].endswith("Map"))]
        ctx.ob("no-panic", not pan, "checking a grammar does not panic: " + ", ".join(show(x.args[0]) for x in pan), f)
    g = ctx.fn(r"lcfrs::Lcfrs::in_normal_form$")
    if g:
        v = ctx.view(g)
        t, fa = bools(v)
        rules = fld(mk("arg", 1, "self"), "rules")
        R = IX(rules, I("i"))
        C = comp_of(R)
        X, intro = sym(C)
        empty = [MORE(rules, I("i")), MORE(C, I("e")), EQ(LEN(IX(C, I("e"))), const(0))]
        mixed = [MORE(rules, I("i"))] + intro + [IS(X, "T")]
        C0 = IX(C, const(0))
        more_ = {"several components": [(EQ(LEN(C), const(1)), False)], "several symbols": [(EQ(LEN(C0), const(1)), False)], "a variable": [IS(IX(C0, const(0)), "Var")]}
        opt = [EQ(LEN(C), const(1)), EQ(LEN(C0), const(1)), (P("op", "all", ANY, ANY), True), DONE]
        hit = set()
        for k in expand(fa):
            found = None
            if first_conj(empty, [DONE, (P("op", "all", ANY, ANY), True)], k):
                found = "empty component"
            for name, l in more_.items():
                if first_conj(mixed + l, opt, k):
                    found = name
            ctx.ob("normal-form:rejects-only", found is not None, "a rule is not in normal form only if it has an empty component, or terminals and not exactly one symbol: " +
                   showc(frozenset([k])), g)
            hit.add(found)
        for name in ["empty component"] + [n for n in more_ if n != "a variable"]:
            ctx.ob("normal-form:" + name, name in hit, "a grammar is not in normal form if a rule with terminals has %s" % name, g)
        ctx.ob("normal-form:all", all(after_all(k) for k in t), "a grammar is in normal form only if all of its rules are: " + showc(t), g)


# ---------------------------------------------------------------- G01
def g01(ctx):
    f = ctx.method(r"cfg::CFG<", r"From<.*PMCFG<", "from")
    if not f:
        return
    v = ctx.view(f)
    a = mk("arg", 1, f["locals"][1]["name"] or "")
    rules = fld(a, "rules")
    R = IX(rules, I("i"))
    C = comp_of(R)
    single = EQ(LEN(C), const(1))
    comp0 = IX(C, const(0))
    X = IX(comp0, I("s"))
    first_comp = ALT(comp0)
    for k, r in paths(v):
        ok_ = is_adt(r, "CFG")
        ctx.ob("cfg", ok_ and after_all(k), "every rule is converted: %s if %s" % (show(r, 3), showc(frozenset([k]))), f)
        if not ok_:
            continue
        ctx.ob("initial", field(r, "initial") is fld(a, "initial"), "the initial nonterminals are kept: " + show(field(r, "initial")), f)
        cs = cases(field(r, "rules"))
        ctx.ob("rules", len(cs) >= 1 and kind_of_coll(field(r, "rules")) in LISTS, "the rules are collected: " + show(field(r, "rules"), 4), f)
        for el, c in cs:
            e = exact(ctx, "every-rule", f, "every rule with one component is converted", c, [MORE(rules, I("i"))], [single])
            if e is None:
                continue
            ok_ = is_adt(el, "CFGRule")
            ctx.ob("rule", ok_, "a rule is converted to a rule: " + show(el), f)
            if not ok_:
                continue
            ctx.ob("head", first(F(R, "head"), field(el, "head"), e), "the left-hand side is kept: " + show(field(el, "head")), f)
            ctx.ob("weight", first(F(R, "weight"), field(el, "weight"), e), "the weight is kept: " + show(field(el, "weight")), f)
            body = field(field(el, "composition"), "composition")
            kinds = set()
            ctx.ob("order", kind_of_coll(body) in LISTS and body.op in ("coll", "colls"), "the right-hand side keeps the order of the component: " + show(body, 4), f)
            for s, c2 in cases(body):
                if is_adt(s, "LetterT", "Value"):
                    kinds.add("T")
                    e2 = first(ADT("LetterT", "Value", _0=F(X, "T:0")), s, e)
                    ctx.ob("terminal", e2, "a terminal is kept: " + show(s), f)
                    exact(ctx, "every-terminal", f, "every terminal is kept", c2, [IS(X, "T")], [MORE(rules, I("i")), single, MORE(comp0, I("s"))], e2 or e)
                elif is_adt(s, "LetterT", "Label"):
                    kinds.add("Var")
                    e2 = first(ADT("LetterT", "Label", _0=IX(F(R, "tail"), F(X, "Var:0"))), s, e)
                    ctx.ob("nonterminal", e2, "a variable becomes the nonterminal it refers to: " + show(s), f)
                    exact(ctx, "every-variable", f, "every variable of a first component is replaced", c2, [IS(X, "Var"), EQ(F(X, "Var:1"), const(0))],
                          [MORE(rules, I("i")), single, MORE(comp0, I("s")), LT(F(X, "Var:0"), LEN(F(R, "tail")))], e2 or e)
                else:
                    ctx.ob("symbol", False, "a symbol of the rule is a converted symbol of the component: " + show(s), f)
            ctx.ob("both", kinds == {"T", "Var"}, "terminals and variables are converted", f)


# ---------------------------------------------------------------- L02
def deleted(t, i, comp, tail, fm, e):
    """t: the components of successor i that no variable of the components comp refers to"""
    X, intro = sym(comp, "dc", "ds")
    used = TUP(F(X, "Var:0"), F(X, "Var:1"))
    allused = COLL(used, intro + [IS(X, "Var")], [DONE], kinds=SETS)

    def left(q):
        return COLL(I("dk"), [LT(I("dk"), lookup(fm, IX(tail, q))), (CALL("contains", allused, TUP(q, I("dk"))), False)], [DONE], kinds=SETS)
    if first(left(i), t, e):
        return True
    if t.op != "idx" or t.a[1] is not i:
        return False
    t = t.a[0]
    D = I("di")
    if t.op == "minus":
        e2 = first(COLL(COLL(I("dk"), [LT(I("dk"), lookup(fm, IX(tail, D)))], kinds=SETS), [MORE(tail, D)], [IS(CALL("get", fm, IX(tail, D)), "Some"), DONE], kinds=LISTS), t.a[0], e)
        if e2 is None or len(t.a[1]) != 1:
            return False
        (el, c), = t.a[1]
        e3 = first(used, el, e2)
        return e3 is not None and first_dnf(intro + [IS(X, "Var")], [DONE], c, e3) is not None
    return first(COLL(left(D), [MORE(tail, D)], [DONE], kinds=LISTS), t, e) is not None


def l02(ctx):
    f = ctx.method(r"lcfrs::Lcfrs<\(", r"From<.*Mcfg<", "from")
    if not f:
        return
    v = ctx.view(f)
    g = mk("arg", 1, f["locals"][1]["name"] or "")
    rules, initial = fld(g, "rules"), fld(g, "initial")
    S = IX(rules, I("g"))
    byhead = COLL(TUP(F(S, "head"), S), [MORE(rules, I("g"))], kinds=("group:HashMap", "group:BTreeMap"))
    fm = fan_map(rules)

    def start(t):
        return t.op == "tuple" and len(t.a) == 2 and t.a[0] is initial and (
            is_call(t.a[1], "BTreeSet::new", "default") and not t.a[1].a[1] or t.a[1].op == "coll" and not t.a[1].a[1])

    def rule_of(a):
        own = F(CALL("get", byhead, a), "Some:0")
        R = IX(own, I("r"))
        return R, own, [MORE(own, I("r"))], [IS(CALL("get", byhead, a), "Some")]

    def kept(R, D):
        return COLL(IX(comp_of(R), I("j")), [MORE(comp_of(R), I("j")), (CALL("contains", D, I("j")), False)], kinds=LISTS)

    def known(R):
        nt = IX(F(R, "tail"), I("kt"))
        return ALL(ALT(CALL("contains_key", fm, nt), IS(CALL("get", fm, nt), "Some"), OP("isv", CALL("get", fm, nt), "Some")), [MORE(F(R, "tail"), I("kt"))])

    for k, r in paths(v):
        ok_ = is_adt(r, "Lcfrs")
        ctx.ob("lcfrs", ok_ and after_all(k), "every reachable nonterminal is seen: %s if %s" % (show(r, 3), showc(frozenset([k]))), f)
        if not ok_:
            continue
        ctx.ob("initial", start(field(r, "init")), "the initial nonterminal keeps all of its components: " + show(field(r, "init")), f)
        new = field(r, "rules")
        cs = cases(new)
        ctx.ob("rules", len(cs) >= 1 and kind_of_coll(new) in LISTS, "the rules are collected: " + show(new, 4), f)
        for el, c in cs:
            ok_ = is_adt(el, "PMCFGRule") and field(el, "head").op == "tuple"
            ctx.ob("rule", ok_, "a rule is made of a rule: " + show(el, 3), f)
            if not ok_:
                continue
            R0, D = field(el, "head").a
            pop = first(F(CALL(("pop", "pop_front", "next"), V("agenda")), "Some:0"), D.a[0] if D.op == "f" else D, {})
            # which rule: reached nonterminal a, deletions D
            ctx.ob("head", pop is not None and D.op == "f", "the left-hand side has the deletions of a reached nonterminal: " + show(D), f)
            if pop is None:
                continue
            a = [y for p, _ in c for y in walk(p) if y.op == "f" and y.a[0] is D.a[0] and y.a[1] == "0"]
            R, own, intro, there = rule_of(a[0] if a else D)
            e = exact(ctx, "every-rule", f, "each rule of each reached nonterminal is converted unless one of its successors has no rule", c,
                      intro + [known(R)], there + [IS(CALL(("pop", "pop_front", "next"), ANY), "Some"), (P("call", ("insert",), ANY, ANY), True)])
            if e is None:
                continue
            ctx.ob("head:nonterminal", first(F(R, "head"), R0, e), "the left-hand side is kept: " + show(R0), f)
            ctx.ob("weight", first(F(R, "weight"), field(el, "weight"), e), "the weight is kept: " + show(field(el, "weight")), f)
            tail = field(el, "tail")
            pair = tail.a[0] if tail.op == "coll" else tail
            ok_ = pair.op == "tuple" and len(pair.a) == 2
            e2 = ok_ and first(COLL(TUP(IX(F(R, "tail"), I("t")), pair.a[1]), [MORE(F(R, "tail"), I("t"))], [MORE(ANY, I("t"))], kinds=LISTS), tail, e)
            ctx.ob("tail", e2, "each successor keeps its nonterminal, together with its deletions: " + show(tail, 4), f)
            body = field(field(el, "composition"), "composition")
            if not e2:
                continue
            kp = kept(R, D)
            ks = [y for y in walk(body) if first(kp, y, e)]
            ctx.ob("composition", len(ks) >= 1, "exactly the components that are not deleted remain, in order: " + show(body, 4), f)
            if not ks:
                continue
            ek = first(kp, ks[0], e)
            ctx.ob("deletions", deleted(pair.a[1], e2["t"], ks[0], F(R, "tail"), fm, e),
                   "a component of a successor is deleted iff no remaining variable refers to it: " + show(pair.a[1], 6), f)
            x = IX(IX(ks[0], I("c")), I("s"))
            end = F(x, "Var:1")
            lost = CALL("count", ALT(COLL(ANY, [MORE(V("dx"), I("p")), LT(IX(V("dx"), I("p")), end)], [DONE]),
                                     COLL(ANY, [MORE(V("dx"), I("p")), (LT(end, IX(V("dx"), I("p"))), False)], [DONE]),
                                     COLL(ANY, [MORE(CALL("range", V("dx"), ADT("RangeTo", end=end)), I("p"))], [DONE])))
            var = ADT("VarT", "Var", _0=F(x, "Var:0"), _1=OP("sub", end, lost))
            val = PHI(([IS(x, "T")], [DONE], ALT(x, ADT("VarT", "T", _0=F(x, "T:0")))), ([IS(x, "Var")], [DONE], var))
            lists = COLL(COLL(val, [MORE(IX(ks[0], I("c")), I("s"))], [DONE], kinds=LISTS), [MORE(ks[0], I("c"))], [DONE], kinds=LISTS)
            e3 = first(lists, body, ek)
            ctx.ob("renumbered", e3, "terminals are kept, and each variable is reduced by a count of the components that are deleted before it: " + show(body, 4), f)
            if e3:
                ctx.ob("renumbered:by", deleted(e3["dx"], fld(mk("idx", mk("idx", ks[0], e3["c"]), e3["s"]), "Var:0"), ks[0], F(R, "tail"), fm, e),
                       "the deleted components of the successor the variable refers to are counted: " + show(e3["dx"], 6), f)
    # which nonterminals are reached
    searches, views = {}, [v]
    for x in v.events:
        for a in x.args:
            for y in walk(a):
                if y.op == "closure":
                    searches[y] = 1
    found = 0
    for clo in searches:
        a_, D_ = mk("arg", 7, "a"), mk("arg", 8, "D")
        w = ctx.view_closure(f, clo, [mk("tuple", a_, D_)])
        if w is None:
            continue
        rs = [(k, r) for k, r in paths(w)]
        if not rs or not all(is_call(r, "Vec::new") or r.op in ("coll", "colls") and all(x.op == "tuple" for x, _ in cases(r)) for _, r in rs) or not any(y.op == "minus" or is_call(y, "get") for _, r in rs for y in walk(r)):
            continue
        found += 1
        views.append(w)
        R, own, intro, there = rule_of(a_)
        for k, r in rs:
            ctx.ob("reach:all", after_all(k), "every rule is seen: " + showc(frozenset([k])), f)
            for el, c in cases(r):
                ok_ = el.op == "tuple" and len(el.a) == 2
                e = ok_ and exact(ctx, "reach:every", f, "each successor in each rule of a reached nonterminal is reached", c,
                                  intro + [MORE(F(R, "tail"), I("t"))], there + [known(R), MORE(ANY, I("t"))])
                if not e:
                    ctx.ob("reach:successor", ok_, "nonterminals are reached together with their deletions: " + show(el, 4), f)
                    continue
                ctx.ob("reach:nonterminal", first(IX(F(R, "tail"), I("t")), el.a[0], e), "the successor itself is reached: " + show(el, 4), f)
                ks = [y for y in walk(el) if first(kept(R, D_), y, e)]
                ctx.ob("reach:deletions", ks and deleted(el.a[1], e["t"], ks[0], F(R, "tail"), fm, e),
                       "a component of a successor is deleted iff no remaining variable refers to it: " + show(el.a[1], 6), f)
    ctx.ob("reach", found == 1, "the nonterminals are found by a search over successors", f)
    inits = [y for x in v.events for a in x.args for y in walk(a) if y.op == "tuple" and start(y)]
    ctx.ob("reach:start", inits, "the search starts from the initial nonterminal", f)
    nt = ALT(CALL("contains_key", fm, ANY), IS(CALL("get", fm, ANY), "Some"), OP("isv", CALL("get", fm, ANY), "Some"))
    for w in views:
        for x in w.events:
            if x.kind != "panic":
                continue
            ok_ = any(is_none(y) for y in walk(x.args[0])) or \
                (first(CALL("get", fm, ANY), x.args[0]) is not None and all(any(y and first(ALL(nt, [MORE(ANY, ANY)]), p) for p, y in k) for k in x.cond))
            ctx.ob("no-panic", ok_, "a consistent grammar is converted without panic: " + show(x.args[0], 4), f)
