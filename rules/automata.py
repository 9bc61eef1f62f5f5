"""Rules about automata: recognition, integer forms, automata built from grammars."""
from base import *
from pat import *
from ev import subst
from view import assume
from grammar import after_all, list_of
from derivations import empty_list
from storage import args, under

RUN = ("integerise", "find_value", "find_key", "Pushdown::from", "Pushdown::to_vec", "Pushdown::into", "Pushdown::push", "Pushdown::new", "Pushdown::map", "Pushdown::iter", "Transition::apply",
       "Automaton::new", "from_transitions", "::weighted", "::with_agenda", "::unweighted", "get_weight")
AUTOMATA = {"finite": (r"FiniteStateAutomaton\b", "q_integeriser", "t_integeriser"), "pushdown": (r"PushDownAutomaton\b", "a_integeriser", "t_integeriser"),
            "tree stack": (r"TreeStackAutomaton\b", "a_integeriser", "t_integeriser")}


def keep(g):
    n = g["nname"]
    return n.endswith(RUN) or "Pushdown<" in n or "LimitedHeap" in n


def lit(k):
    return showc(frozenset([frozenset(k)]))


def stages(t):
    """a chain of lazy adapters: the source and [(adapter, closure)]"""
    out = []
    while t.op == "itd" and len(t.a) == 3:
        out.append((t.a[0], t.a[2]))
        t = t.a[1]
    return t, out[::-1]


def empty_run(t):
    return is_call(t, "Pushdown::new", "default") or is_adt(t, "Pushdown", "Empty")


def gone(t):
    """an element of something empty"""
    return t.op == "idx" and empty_list(t.a[0])


def given(t):
    """the elements of a list that is built by pushing"""
    if t.op == "eff" and is_call(t.a[0], "push", "push_back") and given(t.a[0].a[1][0]) is not None:
        return given(t.a[0].a[1][0]) + [t.a[0].a[1][1]]
    return [] if empty_list(t) else list_of(t)


def over(v, x, base):
    """an element of this list, maybe through an iterator over it"""
    if x.op != "idx" or not isinstance(x.a[1], T) or x.a[1].op not in ("i", "pos"):
        return False
    L = v.loops.get(x.a[0])
    return x.a[0] is base or L is not None and L["init"] is base


def a01(ctx):
    for name in ("recognise", "recognise_beam"):
        f = ctx.fn(r"recognisable::automaton::%s$" % name)
        if f:
            recognition(ctx, f, name)
    # ---- one step
    f = ctx.method(r"transition::Transition\b", None, "apply")
    if f:
        s, c = args(f)
        word, mine = fld(c, "word"), fld(s, "word")
        starts = ALT(CALL("starts_with", word, mine))
        succ = CALL("apply", fld(s, "instruction"), fld(c, "storage"))
        seen = set()
        v = ctx.view(f)
        for k, r in paths(v):
            hit = [b for p, b in k if first(starts, p) is not None]
            cs = cases(r)
            if not cs and not (r.op == "coll"):
                ctx.ob("step:none", hit == [False] or any(first(MORE(succ, ANY), p) is not None and not b for p, b in k),
                       "a transition does not apply only if the remaining word starts differently or its instruction does not apply: " + lit(k), f)
                continue
            for el, c2 in cs:
                seen.add(1)
                c2 = set(c2) | set(k)
                ctx.ob("step:word", any(b and first(starts, p) is not None for p, b in c2), "a transition applies only if the remaining word starts with its word: " + lit(c2), f)
                extra = [l for l in c2 if first(starts, l[0]) is None and l[0].op != "more"]
                ctx.ob("step:always", not extra, "nothing else decides whether a transition applies: " + lit(extra), f)
                w = field(el, "word")
                n = length(mine)
                rest = first(ALT(CALL("split_off", word, n), CALL(("to_vec", "index", "cloned", "to_owned", "into"), CALL("index", word, ANY))), w) is not None or \
                    w.op == "coll" and first(IX(word, ANY), w.a[0]) is not None
                if not rest and not is_call(w, "split_off"):
                    ctx.undecided("step:rest", show(w), f)
                else:
                    ctx.ob("step:rest", rest and any(x is n for x in walk(w)), "a transition consumes its word: " + show(w), f)
                ctx.ob("step:storage", first(IX(succ, I("j")), field(el, "storage")) is not None, "the new storage is one that the instruction yields: " + show(field(el, "storage")), f)
                ctx.ob("step:weight", first(ALT(CALL("mul", fld(c, "weight"), fld(s, "weight")), CALL("mul", fld(s, "weight"), fld(c, "weight")), OP("mul", fld(c, "weight"), fld(s, "weight"))),
                                            field(el, "weight")) is not None, "weights are multiplied: " + show(field(el, "weight")), f)
        ctx.ob("step:some", bool(seen), "transitions apply", f)
    # ---- the product of a run
    for f in ctx.fns(r"Automaton::check_run$"):
        s, run = args(f)
        v = ctx.view(f, noinline=keep)
        TS = ALT(CALL(("to_vec", "iter", "into", "into_iter"), run), run)
        for k, r in paths(v):
            for el, c in cases(r):
                q = field(el, "0")
                st, w = field(q, "storage"), field(q, "weight")
                ctx.ob("run:word", empty_list(field(q, "word")), "nothing is left of the word: " + show(field(q, "word")), f)
                ctx.ob("run:run", field(el, "1") is run, "a result has the run: " + show(field(el, "1")), f)
                L = v.loops.get(w)
                if L is None:
                    ctx.undecided("run:weight", show(w), f)
                else:
                    mul_ = [first(ALT(OP("eff", CALL("mul_assign", w, F(IX(V("ts"), I("i")), "weight")), 0), CALL("mul", w, F(IX(V("ts"), I("i")), "weight"))), b) for b in L["back"]]
                    ctx.ob("run:weight", is_call(L["init"], "one") and all(e is not None for e in mul_), "the weight is the product of all weights: %s, %s" % (show(L["init"]), "; ".join(show(b) for b in L["back"])), f)
                L = v.loops.get(st.a[0]) if st.op == "idx" else None
                if L is None:
                    ctx.undecided("run:storage", show(st), f)
                    continue
                first_ = given(L["init"])
                ctx.ob("run:initial", first_ is not None and len(first_) == 1 and is_call(first_[0], "initial"), "a run starts at the initial storage: " + show(L["init"]), f)
                for b in L["back"]:
                    L2 = v.loops.get(b)
                    xs = b if L2 is None else None
                    if L2 is not None:
                        good = empty_list(L2["init"]) and all(y.op == "eff" and is_call(y.a[0], "extend", "append") and y.a[0].a[1][0] is b and
                                                               any(is_call(z, "apply") and first(F(IX(ANY, I("i")), "instruction"), z.a[1][0]) is not None and over(v, z.a[1][1], st.a[0])
                                                                   for z in walk(y.a[0].a[1][1])) for y in L2["back"])
                        ctx.ob("run:step", good, "each transition is applied to each storage: " + "; ".join(show(y) for y in L2["back"]), f)
                    else:
                        ctx.ob("run:step", any(is_call(z, "apply") for z in walk(xs)), "each transition is applied to each storage: " + show(xs), f)
    # ---- which transitions, which configurations end
    for what, (ty, qi, ti) in AUTOMATA.items():
        A = r"automaton::Automaton\b"

        def m(n, what=what, ty=ty):
            return ctx.method(ty, A, n)
        f = m("extract_key")
        if f:
            st = fld(args(f)[0], "storage")
            top = {"finite": lambda r: r is st, "pushdown": lambda r: r is idx(fld(st, "elements"), sub(length(fld(st, "elements")), const(1))) or first(F(CALL("last", fld(st, "elements")), "Some:0"), r) is not None,
                   "tree stack": lambda r: r is fld(st, "value")}[what]
            for k, r in paths(ctx.view(f)):
                ctx.ob(what + ":key", top(r), "transitions are looked up under the state or topmost symbol: " + show(r), f)
        f = m("is_terminal")
        if f:
            s, c = args(f)
            done = EQ(length(fld(c, "word")), const(0))
            st = fld(c, "storage")
            bottom = {"finite": CALL("contains", fld(s, "final_states"), st), "pushdown": EQ(length(fld(st, "elements")), const(1)), "tree stack": IS(fld(st, "parent"), "None")}[what]
            bottom = ALT(bottom, OP("isv", fld(st, "parent"), "None"))
            yes, no = bools(ctx.view(f))
            some = (mk("is", fld(st, "parent"), "Some"), False)
            for k in yes:
                ctx.ob(what + ":end", any(b and first(done, p) is not None for p, b in k) and (any(b and first(bottom, p) is not None for p, b in k) or some in k),
                       "a configuration is final only if its word is empty and its storage is final: " + lit(k), f)
                extra = [l for l in k if first(done, l[0]) is None and first(bottom, l[0]) is None and l[0] is not some[0]]
                ctx.ob(what + ":end:always", not extra, "nothing else decides whether a configuration is final: " + lit(extra), f)
            ctx.ob(what + ":end:some", bool(yes), "some configurations are final", f)
        for n, want in (("initial_int", {"finite": "initial_state"}.get(what, "initial")), ("transition_map", "transitions")):
            f = m(n)
            if f:
                for k, r in paths(ctx.view(f)):
                    ctx.ob("%s:%s" % (what, n), r is fld(args(f)[0], want), "%s gives the stored ones: %s" % (n, show(r)), f)
        f = m("terminal_to_int")
        if f:
            s, t = args(f)
            for k, r in paths(ctx.view(f)):
                ctx.ob(what + ":terminal", first(CALL("find_key", fld(s, ti), t), r) is not None, "a symbol of the word is looked up among the terminals: " + show(r), f)
        # storing
        for f in ctx.fns(r"%s::new$" % ty[:-2]):
            stored(ctx, f, what)


def stored(ctx, f, what):
    v = ctx.view(f, noinline=keep)
    ts = args(f)[0]
    X = CALL("integerise", IX(ts, I("i")), ANY, ANY)
    INS = F(X, "instruction")
    KEYS = {"finite": [(ALT(F(INS, "source_state")), None)], "pushdown": [(IX(F(INS, "Replace:current_val"), const(0)), None)],
            "tree stack": [(F(INS, "%s:current_val" % w), w) for w in ("Up", "Push", "Down")]}[what]

    def plain(c):
        """only what belongs to any transition decides"""
        for k in c:
            for p, b in k:
                if p.op == "more" or is_call(p, "contains_key") or p.op == "is" and (first(INS, p.a[0]) is not None or is_call(p.a[0], "get_mut", "entry", "get")) or \
                        p.op == "isv" and is_call(p.a[0], "get_mut", "get"):
                    continue
                if what == "pushdown" and first(EQ(LEN(F(INS, "Replace:current_val")), const(0)), p) is not None:
                    continue
                return False
        return True
    n = 0
    for e in v.events:
        if e.kind == "call" and e.path.startswith("std::collections::HashMap::") and e.path.endswith(("::entry", "::insert", "::get_mut")) or e.kind == "call" and e.path.endswith("BTreeMap::entry"):
            for c, key in alts(e.args[1]):
                if key.op == "tuple":
                    # equal transitions are one transition with the sum of the weights
                    ctx.ob(what + ":same", len(key.a) == 2 and first(F(X, "word"), key.a[0]) is not None and first(INS, key.a[1]) is not None,
                           "transitions are the same iff word and instruction are: " + show(key), f)
                    continue
                n += 1
                ok_ = any(first(p, key) is not None and (w is None or len(alts(e.args[1])) == 1 or all(any(q.op == "is" and b and q.a[1] == w for q, b in k) for k in c)) for p, w in KEYS)
                ctx.ob(what + ":stored", ok_, "a transition is stored under the state or symbol it reads first: " + show(key), f)
                ctx.ob(what + ":stored:all", plain(e.cond), "every transition is stored: " + showc(e.cond), f)
        if e.kind == "call" and e.path.endswith("BinaryHeap::push"):
            ctx.ob(what + ":kept", first(X, e.args[1]) is not None and plain(e.cond), "the transition itself is stored: %s if %s" % (show(e.args[1]), showc(e.cond)), f)
        if e.kind == "call" and e.path.endswith("add_assign"):
            ctx.ob(what + ":sum", first(F(X, "weight"), e.args[1]) is not None and plain(e.cond), "weights of equal transitions are added: " + show(e.args[1]), f)
    for k, r in paths(v):
        tm = field(r, "transitions")
        if n == 0 and tm.op == "coll":
            for el, c in cases(tm):
                n += 1
                ctx.ob(what + ":stored", el.op == "tuple" and any(first(p, el.a[0]) is not None for p, w in KEYS) and first(X, el.a[1]) is not None, "a transition is stored under the state or symbol it reads: " +
                       show(el), f)
                ctx.ob(what + ":stored:all", plain(frozenset([frozenset(c)])), "every transition is stored: " + lit(c), f)
        for g, i in ((AUTOMATA[what][2], 1), (AUTOMATA[what][1], 2)):
            x = field(r, g)
            ok_ = x.op == "eff" and is_call(x.a[0], "integerise") and x.a[1] == i or x.op == "loop"
            if x.op == "eff" and is_call(x.a[0], "integerise") or x.op == "loop":
                ctx.ob(what + ":integeriser", ok_, "the integerisers are stored that were used for words and storages: %s is %s" % (g, show(x)), f)
            else:
                ctx.undecided(what + ":integeriser", show(x), f)
        ini = field(r, "initial_state") if what == "finite" else field(r, "initial")
        src = args(f)[1]
        ctx.ob(what + ":initial", is_call(ini, "integerise") and any(a is src for a in ini.a[1]), "the initial storage is the given one: " + show(ini), f)
        if what == "finite":
            fin = field(r, "final_states")
            fs = args(f)[2]
            for el, c in cases(fin):
                ctx.ob(what + ":finals", is_call(el, "integerise") and any(first(IX(fs, I("i")), a) is not None for a in el.a[1]) and not [l for l in c if l[0].op != "more"], "the final states are the given ones: " + show(el), f)
            ctx.ob(what + ":finals:any", bool(cases(fin)), "there are final states", f)
    if n == 0:
        ctx.undecided(what + ":stored", "no transition map", f)


def recognition(ctx, f, name):
    a, word = args(f)[0], args(f)[-1]
    v = ctx.view(f, noinline=keep)
    C = lambda n, *xs: CALL("Automaton::" + n, *xs)
    for k, r in paths(v):
        src, st = stages(r)
        if not is_call(src, "weighted", "with_agenda", "unweighted"):
            ctx.undecided(name, show(r), f)
            continue
        begin, succ = src.a[1][:2]
        # ---- where it begins
        items = [x for x in walk(begin) if is_adt(x, "Item")]
        ctx.ob(name + ":begin", bool(items), "there is an initial item: " + show(begin), f)
        T2 = C("terminal_to_int", a, IX(word, I("i")))
        for x in set(items):
            c = field(x, "0")
            w = field(c, "word")
            ctx.ob(name + ":word", first(COLL(F(T2, "Some:0"), [MORE(word, I("i"))], [IS(T2, "Some")], ("", "Vec")), w) is not None, "it begins with the whole word: " + show(w), f)
            ctx.ob(name + ":storage", first(C("initial_int", a), field(c, "storage")) is not None, "it begins with the initial storage: " + show(field(c, "storage")), f)
            ctx.ob(name + ":one", is_call(field(c, "weight"), "one"), "it begins with weight one: " + show(field(c, "weight")), f)
            ctx.ob(name + ":run", empty_run(field(x, "1")), "it begins with no transition: " + show(field(x, "1")), f)
        if is_some(begin) or begin.op == "array" or list_of(begin):
            ctx.ob(name + ":unknown", False, "there is no initial item if some symbol is unknown: " + show(begin), f)
        for x in walk(begin):
            if x.op != "phi" or not any(is_none(y) for _, y in x.a[0]):
                continue
            for c, y in x.a[0]:
                known = first_dnf([ALL(ALT(OP("isv", T2, "Some"), IS(T2, "Some")), [MORE(word, I("i"))])], [], c) is not None
                unknown = first_dnf([(ALL(ALT(OP("isv", T2, "Some"), IS(T2, "Some")), [MORE(word, I("i"))]), False)], [], c) is not None
                if is_none(y):
                    ctx.ob(name + ":unknown", unknown, "there is no initial item only if some symbol is unknown: " + showc(c), f)
                elif is_some(y):
                    ctx.ob(name + ":known", known, "there is an initial item if all symbols are known: " + showc(c), f)
        # ---- steps
        item = mk("arg", 9, "item")
        conf, run = field(item, "0"), field(item, "1")
        key = ALT(*[C("extract_key", conf)])
        entry = CALL("get", C("transition_map", a), key)
        R = IX(F(entry, "Some:0"), I("t"))
        try:
            w = ctx.view_closure(f, succ, [item], noinline=keep)
        except Exception as e:
            ctx.undecided(name + ":step", str(e), f)
            w = None
        n = 0
        for k2, r2 in paths(w) if w else []:
            for el, c in cases(r2):
                if not is_adt(el, "Item"):
                    ctx.undecided(name + ":step", show(el), f)
                    continue
                x = el
                for p, b in c:
                    x = assume(x, p, b)
                cf, rn = field(x, "0"), field(x, "1")
                ap = cf.a[0] if cf.op == "idx" else None
                if ap is None or not is_call(ap, "Transition::apply"):
                    ctx.undecided(name + ":step:apply", show(cf), f)
                    continue
                tr = ap.a[1][0]
                if gone(tr):
                    continue
                n += 1
                ctx.ob(name + ":step:apply", first(R, tr) is not None and ap.a[1][1] is conf and first(IX(ANY, I("j")), cf) is not None,
                       "a successor is the configuration after a transition under the key of the configuration: " + show(cf), f)
                ctx.ob(name + ":step:run", is_call(rn, "push") and rn.a[1][0] is run and rn.a[1][1] is tr, "the transition is put on top of the run: " + show(rn), f)
                extra = [l for l in set(c) | set(k2) if l[0].op != "more" and first(ALT(IS(entry, "Some"), IS(entry, "None")), l[0]) is None]
                ctx.ob(name + ":step:all", not extra, "all successors are explored: " + lit(extra), f)
        if w:
            ctx.ob(name + ":step:some", n > 0, "there are successors", f)
        # ---- results
        ended, mapped, other = [], [], []
        for ad, clo in st:
            try:
                w = ctx.view_closure(f, clo, [item], noinline=keep)
            except Exception as e:
                ctx.undecided(name + ":result", str(e), f)
                continue
            if ad == "filter":
                yes, no = bools(w)
                for k2 in yes:
                    ended.append(set(k2))
            elif ad == "map":
                mapped += [(frozenset(), x) for _, x in paths(w)]
            elif ad == "filter_map":
                for k2, x in paths(w):
                    if is_some(x):
                        ended.append(set(k2))
                        mapped.append((k2, payload(x)))
            else:
                other.append(ad)
        E = C("is_terminal", a, conf)
        for k2 in ended:
            ctx.ob(name + ":final", len(k2) == 1 and all(b and first(E, p) is not None for p, b in k2), "the results are the final configurations: " + lit(k2), f)
        ctx.ob(name + ":final:only", bool(ended), "only final configurations are results", f)
        for k2, x in mapped:
            ctx.ob(name + ":mapped", first(C("item_map", a, item), x) is not None, "a result is translated: " + show(x), f)
        for ad in other:
            if ad in ("take", "skip", "take_while", "skip_while", "step_by"):
                ctx.ob(name + ":all", False, "all results are given: " + ad, f)
            else:
                ctx.undecided(name + ":result", ad, f)


# ---------------------------------------------------------------- I01
FORMS = {
    "finite state instruction": (r"FiniteStateInstruction\b", {None: {"source_state": "v", "target_state": "v"}}),
    "pushdown instruction": (r"PushDownInstruction\b", {"Replace": {"current_val": "l", "new_val": "l"}}),
    "pushdown": (r"push_down_automaton::PushDown\b", {None: {"elements": "l"}}),
    "tree stack instruction": (r"TreeStackInstruction\b", {"Up": {"n": "k", "current_val": "v", "old_val": "v", "new_val": "v"}, "Push": {"n": "k", "current_val": "v", "new_val": "v"},
                                                           "Down": {"current_val": "v", "old_val": "v", "new_val": "v"}}),
    "transition": (r"transition::Transition\b", {None: {"word": "l", "weight": "k", "instruction": "i"}}),
}


def same_integeriser(v, t, a, seen=()):
    """t is a, maybe after it was used"""
    if t is a:
        return True
    if t in seen:
        return False
    L = v.loops.get(t)
    if L is not None:
        return same_integeriser(v, L["init"], a, seen + (t,))
    return t.op == "eff" and same_integeriser(v, t.a[0].a[1][t.a[1]], a, seen + (t,)) or t.op == "phi" and all(same_integeriser(v, x, a, seen) for _, x in t.a[0])


def translated(v, x, src, a, back):
    """x is the translation of src with the integeriser a (of None: of any part of a list)"""
    p = F(CALL("find_value", V("int"), src), "Some:0") if back else CALL("integerise", V("int"), src)
    e = first(p, x)
    return e is not None and same_integeriser(v, e["int"], a)


def list_translated(v, x, src, a, back):
    el = IX(src, I("i"))
    p = F(CALL("find_value", V("int"), el), "Some:0") if back else CALL("integerise", V("int"), el)
    e = first(COLL(p, [MORE(src, I("i"))], [IS(CALL("find_value", ANY, el), "Some")] if back else [], ("", "Vec")), x)
    return e is not None and same_integeriser(v, e["int"], a)


def i01(ctx):
    def keep2(g):
        return keep(g) or g["nname"].endswith("TreeStack::map")
    for what, (ty, vs) in FORMS.items():
        for n, back in (("integerise", False), ("un_integerise", True)):
            f = ctx.method(ty, r"Integerisable", n)
            if not f:
                continue
            v = ctx.view(f, noinline=keep2)
            xs = args(f)
            s, a, b = xs[0], xs[1], xs[-1]
            key = "%s:%s" % (what, n)
            seen = set()
            for k, r in paths(v):
                if r.op != "adt":
                    ctx.undecided(key, show(r), f)
                    continue
                var = [x for x in vs if x and (mk("is", s, x), True) in k] or [x for x in vs if x is None or len(vs) == 1]
                var = var[0] if var else None
                if var not in vs:
                    ctx.undecided(key, lit(k), f)
                    continue
                seen.add(var)
                ctx.ob(key + ":kind", var is None or r.a[1] == var, "the kind of an instruction stays: " + show(r, 4), f)
                for fl, kind in vs[var].items():
                    x = field(r, fl)
                    src = field(s, fl, var) if var else fld(s, fl)
                    if kind == "k":
                        good = x is src
                    elif kind == "v":
                        good = translated(v, x, src, a, back)
                    elif kind == "l":
                        good = list_translated(v, x, src, a, back)
                    else:
                        good = is_call(x, n) and x.a[1][0] is src and same_integeriser(v, x.a[1][1], b)
                    ctx.ob("%s:%s" % (key, fl), good, "%s of the %s is translated, and nothing else: %s" % (fl, what, show(x)), f)
            ctx.ob(key + ":kinds", seen == set(vs), "every kind is translated", f)
    f = None
    for n, back in (("integerise", False), ("un_integerise", True)):
        f = ctx.method(r"tree_stack::TreeStack\b", r"Integerisable", n)
        if not f:
            continue
        s, a = args(f)
        v = ctx.view(f, noinline=keep2)
        for k, r in paths(v):
            key = "tree stack:" + n
            if not is_call(r, "TreeStack::map"):
                ctx.undecided(key, show(r), f)
                continue
            ctx.ob(key, r.a[1][0] is s and mapped_by(ctx, f, r.a[1][1], a, back), "each symbol of the tree stack is translated: " + show(r), f)
    # ---- what is listed
    for what, (ty, qi, ti) in AUTOMATA.items():
        f = ctx.method(ty, None, "list_transitions")
        if f:
            s = args(f)[0]
            for k, r in paths(ctx.view(f, noinline=keep2)):
                src, st = stages(r)
                good = first(ALT(fld(s, "transitions"), OP("itd", ANY, fld(s, "transitions")), CALL("values", fld(s, "transitions"))), src) is not None or src.op == "str"
                bad = [ad for ad, _ in st if ad in ("filter", "take", "skip", "take_while", "skip_while", "step_by", "filter_map")]
                ctx.ob(what + ":list:all", not bad, "all transitions are listed: " + ", ".join(map(str, bad)), f)
                n = 0
                T0 = mk("arg", 9, "x")
                for ad, clo in st:
                    if ad not in ("map", "flat_map"):
                        continue
                    x = T0
                    w = ctx.view_closure(f, clo, [x], noinline=keep2)
                    for k2, y in paths(w):
                        if ad == "flat_map" and y.op == "itd":
                            src2, st2 = stages(y)
                            ctx.ob(what + ":list:each", src2 is x and all(a2 == "map" for a2, _ in st2), "every transition of a key is listed: " + show(y), f)
                            for _, clo2 in st2:
                                for _, z in paths(ctx.view_closure(f, clo2, [x], noinline=keep2)):
                                    n += 1
                                    ctx.ob(what + ":list", first(CALL("un_integerise", x, fld(s, ti), fld(s, qi)), z) is not None, "a transition is translated with the integerisers of the automaton: " + show(z), f)
                        elif y.op == "coll":
                            for z, c in cases(y):
                                n += 1
                                ctx.ob(what + ":list", first(CALL("un_integerise", IX(x, I("i")), fld(s, ti), fld(s, qi)), z) is not None and not [l for l in c if l[0].op != "more"],
                                       "a transition is translated with the integerisers of the automaton: " + show(z), f)
                        elif is_call(y, "un_integerise"):
                            n += 1
                            ctx.ob(what + ":list", first(CALL("un_integerise", x, fld(s, ti), fld(s, qi)), y) is not None, "a transition is translated with the integerisers of the automaton: " + show(y), f)
                if n == 0:
                    ctx.undecided(what + ":list", show(r), f)
        for f in ctx.methods(ty, r"automaton::Automaton\b", "initial"):
            s = args(f)[0]
            ini = fld(s, "initial_state" if what == "finite" else "initial")
            v = ctx.view(f, noinline=keep2)
            for k, r in paths(v):
                good = translated(v, r, ini, fld(s, qi), True) or first(CALL("un_integerise", ini, fld(s, qi)), r) is not None or \
                    is_call(r, "TreeStack::map") and r.a[1][0] is ini and mapped_by(ctx, f, r.a[1][1], fld(s, qi), True)
                ctx.ob(what + ":initial", good, "the initial storage is translated: " + show(r), f)
        f = ctx.method(ty, r"automaton::Automaton\b", "item_map")
        if f:
            s, it = args(f)
            c, run = field(it, "0"), field(it, "1")
            v = ctx.view(f, noinline=keep2)
            for k, r in paths(v):
                if not is_adt(r, "Item"):
                    ctx.undecided(what + ":item", show(r), f)
                    continue
                d = field(r, "0")
                ctx.ob(what + ":item:word", list_translated(v, field(d, "word"), fld(c, "word"), fld(s, ti), True), "the rest of the word is translated: " + show(field(d, "word")), f)
                st = fld(c, "storage")
                ctx.ob(what + ":item:storage", translated(v, field(d, "storage"), st, fld(s, qi), True) or first(CALL("un_integerise", st, fld(s, qi)), field(d, "storage")) is not None,
                       "the storage is translated: " + show(field(d, "storage")), f)
                ctx.ob(what + ":item:weight", field(d, "weight") is fld(c, "weight"), "the weight stays: " + show(field(d, "weight")), f)
                x = field(r, "1")
                l = x.a[1][0] if is_call(x, "from", "into", "index", "as_slice") else x
                src = ALT(CALL(("into", "to_vec", "iter", "into_iter"), run), run)
                if is_call(x, "Pushdown::map"):
                    for _, z in paths(ctx.view_closure(f, x.a[1][1], [run], noinline=keep2)):
                        ctx.ob(what + ":item:run", x.a[1][0] is run and first(CALL("un_integerise", run, fld(s, ti), fld(s, qi)), z) is not None, "each transition of the run is translated: " + show(z), f)
                elif l.op == "coll":
                    ctx.ob(what + ":item:run", first(COLL(CALL("un_integerise", IX(src, I("i")), fld(s, ti), fld(s, qi)), [MORE(src, I("i"))], [], ("", "Vec")), l) is not None,
                           "each transition of the run is translated, in order: " + show(l), f)
                else:
                    ctx.undecided(what + ":item:run", show(x), f)


def mapped_by(ctx, f, clo, a, back):
    x = mk("arg", 9, "x")
    try:
        w = ctx.view_closure(f, clo, [x])
    except Exception as e:
        ctx.undecided("closure", str(e), f)
        return True
    return all(first(F(CALL("find_value", a, x), "Some:0") if back else CALL("integerise", a, x), z) is not None for _, z in paths(w))


# ---------------------------------------------------------------- A02
def backwards(t):
    """the cases of a list that runs from the last to the first element, or None"""
    if t.op == "eff" and is_call(t.a[0], "reverse"):
        return cases(t.a[0].a[1][0])
    cs = cases(t)
    if cs and all(el.op == "tuple" and len(el.a) == 2 and el.a[0] is const(0) for el, _ in cs):
        return [(el.a[1], c) for el, c in cs]  # each one is inserted at the front
    m = {x.a[0]: x for el, c in cs for y in [el] + [p for p, _ in c] for x in walk(y) if x.op == "revp"}
    if m and cs:
        out = []
        for el, c in cs:
            for p0, x in m.items():
                el, c = subst(el, x, p0), frozenset((subst(p, x, p0), b) for p, b in c)
            out.append((el, c))
        return out
    return None


def a02(ctx):
    fs = [f for f in ctx.fns(r"push_down_automaton::from_cfg::.*from$")]
    if not fs:
        ctx.missing("From<CFG> for PushDownAutomaton")
    for f in fs:
        g = args(f)[0]
        v = ctx.view(f, noinline=lambda h: keep(h) and not h["nname"].endswith("PushDown::new"))
        rules, ini = fld(g, "rules"), fld(g, "initial")
        R = IX(rules, I("i"))
        for k, r in paths(v):
            if not is_call(r, "new", "from_transitions"):
                ctx.undecided("made", show(r), f)
                continue
            ts, st = r.a[1][0], r.a[1][1]
            els = list_of(field(st, "elements")) if is_adt(st, "PushDown") else list(st.a[1]) if is_call(st, "PushDown::new") else None
            ctx.ob("stack", els is not None and len(els) == 2 and is_adt(els[0], "PushState", "Designated") and is_adt(els[1], "PushState", "Initial"),
                   "the initial stack is the bottom symbol and the initial symbol: " + show(st), f)
            ctx.ob("made:all", after_all(k), "all rules are read: " + lit(k), f)
            seen = set()
            for el, c in cases(ts):
                if not is_adt(el, "Transition"):
                    ctx.undecided("transition", show(el), f)
                    continue
                ins = field(el, "instruction")
                cur, new = given(field(ins, "current_val")), field(ins, "new_val")
                if cur is None or len(cur) != 1:
                    ctx.ob("current", False, "a transition replaces one symbol: " + show(field(ins, "current_val")), f)
                    continue
                x = cur[0]
                word = given(field(el, "word"))
                w = field(el, "weight")
                if is_adt(x, "PushState", "Nt"):
                    seen.add("rule")
                    e = first(F(WHERE(V("rule"), lambda e: first(R, e["rule"]) is not None), "head"), payload_of(x))
                    ctx.ob("rule:head", e is not None, "a rule is applied to its left-hand side: " + show(x), f)
                    if e is None:
                        continue
                    rule = e["rule"]
                    ctx.ob("rule:all", not [l for l in c if l[0].op != "more"], "every rule is used: " + lit(c), f)
                    ctx.ob("rule:word", word == [], "a rule reads nothing: " + show(field(el, "word")), f)
                    ctx.ob("rule:weight", w is fld(rule, "weight"), "a transition has the weight of its rule: " + show(w), f)
                    comp = fld(fld(rule, "composition"), "composition")
                    b = backwards(new)
                    if b is None:
                        forward = cases(new) and all(first(ALT(ADT("PushState", "T"), ADT("PushState", "Nt")), y) is not None for y, _ in cases(new))
                        ends = set(el2.op == "tuple" for el2, _ in cases(new) if el2.op == "tuple" and el2.a and el2.a[0] is const(0) or is_adt(el2, "PushState"))
                        if forward or len(ends) == 2:
                            ctx.ob("rule:order", False, "the first symbol of a rule comes on top: " + show(new), f)
                        else:
                            ctx.undecided("rule:order", show(new), f)
                        continue
                    kinds = set()
                    for y, c2 in b:
                        for pv, lv in (("T", "Value"), ("Nt", "Label")):
                            if is_adt(y, "PushState", pv):
                                kinds.add(pv)
                                s = IX(comp, I("s"))
                                e2 = first(F(s, "%s:0" % lv), payload_of(y))
                                ctx.ob("rule:symbol:" + pv, e2 is not None and all(p.op == "more" or p.op == "is" and first(s, p.a[0], e2) is not None and (p.a[1] == lv) == bool(v_) for p, v_ in c2),
                                       "each symbol of the rule is put on the stack: %s if %s" % (show(y), lit(c2)), f)
                    ctx.ob("rule:symbols", kinds == {"T", "Nt"}, "terminals and nonterminals of a rule are put on the stack: " + show(new), f)
                elif is_adt(x, "PushState", "T"):
                    seen.add("read")
                    t = payload_of(x)
                    ctx.ob("read:word", word is not None and len(word) == 1 and word[0] is t, "a terminal on the stack is read: " + show(field(el, "word")), f)
                    ctx.ob("read:one", is_call(w, "one"), "reading has weight one: " + show(w), f)
                    ctx.ob("read:pop", empty_list(new), "a terminal that is read is removed: " + show(new), f)
                    base = t.a[0] if t.op == "idx" else None
                    if base is None or not cases(base):
                        b2 = first(F(IX(F(R, "composition", "composition"), I("s")), "Value:0"), t)
                        if b2 is None:
                            ctx.undecided("read:all", show(t), f)
                            continue
                        src = [(t, c)]
                    else:
                        src = cases(base)
                        ctx.ob("read:each", not [l for l in c if l[0].op != "more"], "every terminal can be read: " + lit(c), f)
                    for y, c2 in src:
                        s = IX(F(R, "composition", "composition"), I("s"))
                        e2 = first(F(s, "Value:0"), y)
                        ctx.ob("read:all", e2 is not None and all(p.op == "more" or p.op == "is" and first(s, p.a[0]) is not None for p, v_ in c2),
                               "every terminal of every rule can be read: %s if %s" % (show(y), lit(c2)), f)
                elif is_adt(x, "PushState", "Initial"):
                    seen.add("initial")
                    n = given(new)
                    ctx.ob("initial:new", n is not None and len(n) == 1 and is_adt(n[0], "PushState", "Nt") and first(IX(ini, I("i")), payload_of(n[0])) is not None, "the initial symbol becomes an initial nonterminal: " +
                           show(new), f)
                    ctx.ob("initial:word", word == [] and is_call(w, "one"), "this reads nothing and has weight one: %s, %s" % (show(field(el, "word")), show(w)), f)
                    ctx.ob("initial:all", not [l for l in c if l[0].op != "more"], "there is a transition for each initial nonterminal: " + lit(c), f)
                else:
                    ctx.ob("other", False, "there are no other transitions: " + show(el), f)
            ctx.ob("kinds", seen == {"rule", "read", "initial"}, "there are transitions for rules, terminals and initial nonterminals: " + ", ".join(sorted(seen)), f)


def payload_of(x):
    return field(x, "0")


# ---------------------------------------------------------------- A03
def leaves(t, c=()):
    """the values of a φ and when they are taken: [(conjunction, value)]"""
    if t.op != "phi":
        return [(tuple(c), t)]
    return [x for cond, y in t.a[0] for k in cond for x in leaves(y, tuple(c) + tuple(k))]


def lookup_of(t, part):
    """map[rule][component].part as (map, rule, component), or None"""
    e = first(F(IX(IX(V("map"), V("rule")), V("component")), part), t)
    return e and (e["map"], e["rule"], e["component"])


def a03(ctx):
    fs = [f for f in ctx.fns(r"tree_stack_automaton::from_pmcfg::.*from$")]
    if not fs:
        ctx.missing("From<PMCFG> for TreeStackAutomaton")
    for f in fs:
        g = args(f)[0]
        v = ctx.view(f, noinline=keep)
        for k, r in paths(v):
            if not is_call(r, "new", "from_transitions"):
                ctx.undecided("made", show(r), f)
                continue
            st = r.a[1][1]
            if is_adt(st, "TreeStack"):
                ctx.ob("stack", is_adt(field(st, "value"), "PosState", "Initial") and empty_list(field(st, "children")) and is_none(field(st, "parent")), "the initial tree stack is just the initial position: " + show(st), f)
            else:
                ctx.ob("stack", is_call(st, "TreeStack::new") and is_adt(st.a[1][0], "PosState", "Initial"), "the initial tree stack is just the initial position: " + show(st), f)
            ctx.ob("made:all", after_all(k), "all rules are read: " + lit(k), f)
            FromPMCFG(ctx, f, g, v).check(r.a[1][0])


class FromPMCFG:
    def __init__(self, ctx, f, g, v):
        self.ctx, self.f, self.v = ctx, f, v
        self.rules, self.ini = fld(g, "rules"), fld(g, "initial")
        self.R = IX(self.rules, I("r"))
        self.seen = set()

    def ob(self, key, good, text):
        self.ctx.ob(key, good, text, self.f)

    def open(self, key, t):
        self.ctx.undecided(key, show(t), self.f)

    # ---- what the rules know
    def initial_rule(self, x, c):
        """a rule with an initial head: x (maybe from a list of them), under which other conditions"""
        if first(self.R, x) is not None:
            return c
        if x.op == "idx":
            for el, c2 in cases(x.a[0]):
                if first(self.R, el) is not None:
                    return frozenset(c) | frozenset(c2)
        return None

    def is_initial(self, x, c):
        c2 = self.initial_rule(x, c)
        if c2 is None:
            return None
        has = CALL(("contains",), self.ini, F(self.R, "head"))
        rest = [l for l in c2 if l[0].op != "more"]
        if any(l[0].op not in ("call", "eq", "is", "isv") for l in rest):
            return None
        return len(rest) == 1 and (first(has, rest[0][0]) is not None and rest[0][1]
                                   or first(EQ(F(self.R, "head"), IX(self.ini, I("n"))), rest[0][0]) is not None and rest[0][1])

    def buffer(self, key, t, trailing):
        """is t the terminals behind the last variable (before this position)"""
        v = self.v
        L = v.loops.get(t)
        if L is None:
            if t.op == "coll" and first(F(V("s"), "T:0"), t.a[0]) is not None and all(p.op in ("more", "is") for k in t.a[1] for p, _ in k):
                self.ob(key, False, "it reads only the terminals behind the variable before: " + show(t))
            elif t.op == "call" or t.op in ("coll", "colls", "cat", "loop"):
                self.open(key, t)
            else:
                self.ob(key, False, "it reads the terminals before the position: " + show(t))
            return
        inner = [b for b in L["back"] if b.op == "loop" and b is not t and b in v.loops]
        if inner:  # a loop in a loop
            for b in inner:
                self.ob(key + ":start", v.loops[b]["init"] is not t, "no terminals are read that stand in other components: " + show(v.loops[b]["init"]))
                self.buffer(key, b, trailing)
            return
        self.ob(key + ":start", self.emptied(L["init"]), "no terminals are read that stand in other components: " + show(L["init"]))
        kinds = set()
        for b in L["back"]:
            for c, y in leaves(b):
                s = [p.a[0] for p, val in c if p.op == "is" and p.a[1] in ("T", "Var") and val]
                if not s:
                    self.open(key + ":step", b)
                    continue
                kind = [p.a[1] for p, val in c if p.op == "is" and val and p.a[0] is s[0]][0]
                kinds.add(kind)
                if kind == "T":
                    good = y.op == "eff" and is_call(y.a[0], "push") and y.a[0].a[1][0] is t and y.a[0].a[1][1] is fld(s[0], "T:0")
                    self.ob(key + ":terminal", good, "a terminal is added to those before it: " + show(y))
                else:
                    self.ob(key + ":variable", self.emptied(y), "behind a variable, the terminals are gone: " + show(y))
        if kinds != {"T", "Var"}:
            self.open(key + ":kinds", t)

    def emptied(self, t):
        return empty_list(t) or t.op == "eff" and is_call(t.a[0], "clear")

    def count(self, t, comp_ok):
        """the number of variables in a component (so far)"""
        if t.op in ("pos", "i", "len", "c"):
            return False
        e = first(CALL("count", V("list")), t)
        if e is None or e["list"].op != "coll":
            return None
        for el, c in cases(e["list"]):
            var = [p.a[0] for p, val in c if p.op == "is" and p.a[1] == "Var" and val]
            if len(var) != 1 or not comp_ok(var[0]):
                return False
            if any(p.op not in ("more", "is") for p, _ in c):
                return False
        return True

    def down(self, m):
        """does the map hold the number of variables and the trailing terminals of each component of each rule"""
        if ("map", m) in self.seen:
            return
        self.seen.add(("map", m))
        ok = False
        for el, c in cases(m):
            if el.op != "tuple" or len(el.a) != 2 or first(self.R, el.a[0]) is None:
                return self.open("down", m)
            self.ob("down:all", not [l for l in c if l[0].op != "more"], "it is known for every rule: " + lit(c))
            rule = el.a[0]
            comps = fld(fld(rule, "composition"), "composition")
            for el2, c2 in cases(el.a[1]):
                if el2.op != "tuple" or len(el2.a) != 2:
                    return self.open("down:component", el2)
                self.ob("down:components", not [l for l in c2 if l[0].op != "more"], "it is known for every component: " + lit(c2))
                n = self.count(el2.a[0], lambda x: first(IX(IX(comps, I("c")), I("s")), x) is not None)
                if n is None:
                    self.open("down:count", el2.a[0])
                else:
                    self.ob("down:count", n, "the last position in a component is behind all its variables: " + show(el2.a[0]))
                self.buffer("down:word", el2.a[1], True)
                ok = True
        if not ok:
            self.open("down", m)

    def last(self, t, rule, comp):
        """the number of the last position in the component of the rule"""
        e = lookup_of(t, "0")
        if e is None:
            return None
        self.down(e[0])
        return e[1] is rule and e[2] is comp

    def word_of(self, key, t, rule, comp):
        e = lookup_of(t, "1")
        if e is None:
            if t.op == "call" and empty_list(t):
                self.ob(key, False, "it reads the terminals at the end of the component: " + show(t))
            else:
                self.open(key, t)
            return
        self.down(e[0])
        self.ob(key, e[1] is rule and e[2] is comp, "it reads the terminals at the end of the component: " + show(t))

    def position(self, t):
        return (field(t, "0"), field(t, "1"), field(t, "2")) if is_adt(t, "PosState", "Position") else None

    def at(self, key, t, rule, comp, pos, text):
        """is this the position in the component of the rule; pos is a term or a function"""
        p = self.position(t)
        if p is None:
            return self.ob(key, False, text + ": " + show(t))
        self.ob(key + ":rule", p[0] is rule, text + ", in the rule: " + show(p[0]))
        same = p[1] is comp if comp is not None else True
        self.ob(key + ":component", same, text + ", in the component: " + show(p[1]))
        good = pos(p[2]) if callable(pos) else p[2] is pos
        if good is None:
            self.open(key + ":position", p[2])
        else:
            self.ob(key + ":position", good, text + ", at the position: " + show(p[2]))

    def called(self, ri, rule, i1):
        """ri is a rule for the successor number i1 of the rule"""
        tail = fld(rule, "tail")
        tries = [IX(IX(V("m"), IX(tail, i1)), I("x")), IX(IX(COLL(IX(V("m"), IX(tail, I("a"))), [MORE(tail, I("a"))], [], None), i1), I("x"))]
        for p in tries:
            e = first(p, ri)
            if e is not None:
                return self.grouped(e["m"])
        e = first(IX(IX(V("l"), V("i")), I("x")), ri)
        if e is not None and e["i"] is not i1:
            return False
        return None

    def grouped(self, m):
        """a map from each nonterminal to its rules"""
        for el, c in cases(m):
            if el.op == "tuple" and first(F(self.R, "head"), el.a[0]) is not None and first(self.R, el.a[1]) is not None:
                return not [l for l in c if l[0].op != "more"]
        for t, L in self.v.loops.items():
            e = first(F(CALL(("get_mut", "entry", "index_mut"), V("m"), V("key")), "Some:0"), L["init"])
            if e is None or not L["back"]:
                continue
            for b in L["back"]:
                if b.op == "eff" and is_call(b.a[0], "push") and b.a[0].a[1][0] is t:
                    x = b.a[0].a[1][1]
                    if m.op == "loop" and e["key"] is fld(x, "head"):
                        return True
        return None

    # ---- the transitions
    def check(self, ts):
        kinds = set()
        for el, c in cases(ts):
            if not is_adt(el, "Transition"):
                self.open("transition", el)
                continue
            prev = set(p for x in walk(el) if x.op == "phi" for cond, _ in x.a[0] for k in cond for p, _ in k if p.op == "is" and p.a[1] in ("Some", "None") and p.a[0].op == "idx")
            prev |= set(p for p, _ in c if p.op == "is" and p.a[1] in ("Some", "None") and p.a[0].op == "idx" and p.a[0].a[0].op == "loop")
            if len(prev) > 1:
                self.open("transition:cases", el)
                continue
            if prev:
                p = prev.pop()
                for b in (True, False):
                    if (p, not b) in c:
                        continue
                    x = assume(el, p, b)
                    self.transition(x, frozenset(c) - {(p, b)}, (p.a[0], b == (p.a[1] == "Some")), kinds)
            else:
                self.transition(el, frozenset(c), None, kinds)
        self.ob("kinds", kinds == {"start", "end", "push", "up", "down"}, "there are transitions to start, to end, to a new child, to a child again, and back: " + ", ".join(sorted(kinds)))

    def transition(self, el, c, prev, kinds):
        ins, w, word = field(el, "instruction"), field(el, "weight"), field(el, "word")
        cur, old, new = (field(ins, n) for n in ("current_val", "old_val", "new_val"))
        n = field(ins, "n")
        if not is_adt(ins, "TreeStackInstruction"):
            return self.open("instruction", ins)
        zero = const(0)
        var = ins.a[1]
        if var == "Push" and is_adt(cur, "PosState", "Initial"):
            kinds.add("start")
            p = self.position(new)
            if p is None:
                return self.ob("start:new", False, "it starts in a rule: " + show(new))
            ok = self.is_initial(p[0], c)
            if ok is None:
                self.open("start:rule", p[0])
            else:
                self.ob("start:rule", ok, "it starts with every rule that has an initial head: " + lit(c))
            self.ob("start:position", p[1] is zero and p[2] is zero, "it starts in front of the first component: " + show(new))
            self.ob("start:child", n is zero, "the root of the derivation is child 0: " + show(n))
            self.ob("start:word", empty_list(word), "it reads nothing: " + show(word))
            self.ob("start:weight", w is fld(p[0], "weight"), "it has the weight of the rule: " + show(w))
        elif var == "Down" and is_adt(old, "PosState", "Initial"):
            kinds.add("end")
            p = self.position(cur)
            if p is None:
                return self.ob("end:current", False, "it ends in a rule: " + show(cur))
            ok = self.is_initial(p[0], c)
            if ok is None:
                self.open("end:rule", p[0])
            else:
                self.ob("end:rule", ok, "it ends with every rule that has an initial head: " + lit(c))
            self.at("end:current", cur, p[0], zero, lambda t: self.last(t, p[0], zero), "it ends behind the first component")
            self.ob("end:new", is_adt(new, "PosState", "Designated"), "it ends in the designated position: " + show(new))
            self.ob("end:weight", is_call(w, "one"), "it has weight one: " + show(w))
            self.word_of("end:word", word, p[0], zero)
        elif var in ("Push", "Up", "Down"):
            kind = var.lower()
            s = [p.a[0] for p, val in c if p.op == "is" and p.a[1] == "Var" and val]
            if len(s) != 1:
                return self.open(kind + ":variable", el)
            e = first(IX(IX(F(V("rule"), "composition", "composition"), I("c")), I("s")), s[0])
            if e is None or first(self.R, e["rule"]) is None:
                return self.open(kind + ":variable", s[0])
            kinds.add(kind)
            rule, comps = e["rule"], s[0].a[0]
            i1, j1 = fld(s[0], "Var:0"), fld(s[0], "Var:1")
            rest = [l for l in c if l[0].op not in ("more",) and not (l[0].op == "is" and l[0].a[0] is s[0])]
            self.ob(kind + ":all", not rest, "there is one for every variable and every rule of its successor: " + lit(rest))
            this = cur if kind != "down" else old
            p = self.position(this)
            if p is None:
                return self.ob(kind + ":this", False, "it belongs to a position in a rule: " + show(this))
            comp = comps.a[1]
            j = p[1]
            if j is not comp and not (j.op in ("pos", "i")):
                self.ob(kind + ":component", False, "it belongs to the component: " + show(j))
            here = lambda t: self.count(t, lambda x: x.op == "idx" and x.a[0] is comps)
            self.at(kind + ":this", this, rule, None, here, "it belongs to the position of the variable")
            child = self.position(new if kind != "down" else cur)
            if child is None:
                return self.ob(kind + ":child", False, "it belongs to a rule of the successor: " + show(ins))
            ri = child[0]
            ok = self.called(ri, rule, i1)
            if ok is None:
                self.open(kind + ":child", ri)
            else:
                self.ob(kind + ":child", ok, "it belongs to a rule of the successor: " + show(ri))
            if kind == "down":
                self.at("down:current", cur, ri, j1, lambda t: self.last(t, ri, j1), "it comes from behind the component of the variable")
                self.ob("down:weight", is_call(w, "one"), "it has weight one: " + show(w))
                self.word_of("down:read", word, ri, j1)
                self.at("down:new", new, rule, None, lambda t: (lambda a: False if a is None else here(a))(self.before(t)), "it goes behind the variable")
                q = self.position(new)
                self.ob("down:new:same", q is not None and q[1] is j and q[2] is add(p[2], const(1)), "it goes just behind the variable: " + show(new))
                return
            self.ob(kind + ":n", n is i1, "it goes to the child of that number: " + show(n))
            self.at(kind + ":new", new, ri, j1, zero, "it goes in front of the component of the variable")
            self.buffer(kind + ":word", word, False)
            if prev is None:
                return self.open(kind + ":visited", el)
            self.visited(kind, prev[0], i1, j1)
            self.ob(kind + ":first", prev[1] == (kind == "up"), "a child is new iff it was not visited before")
            if kind == "push":
                self.ob("push:weight", w is fld(ri, "weight"), "a new child has the weight of its rule: " + show(w))
            else:
                self.ob("up:weight", is_call(w, "one"), "it has weight one: " + show(w))
                j0 = fld(prev[0], "Some:0")
                self.at("up:old", old, ri, j0, lambda t: self.last(t, ri, j0), "the child is behind the component that was visited last")

    def before(self, t):
        """t - 1"""
        if t.op == "add" and const(1) in t.a[0]:
            xs = list(t.a[0])
            xs.remove(const(1))
            return xs[0] if len(xs) == 1 else None
        return None

    def visited(self, kind, x, i1, j1):
        """x is the entry of child i1 in a list of the last components that were visited"""
        self.ob(kind + ":entry", x.op == "idx" and x.a[1] is i1, "it depends on whether this child was visited: " + show(x))
        todo, done, starts, n = [x.a[0]], set(), [], 0
        while todo:
            t = todo.pop()
            if t in done:
                continue
            done.add(t)
            L = self.v.loops.get(t)
            if L is None:
                starts.append(t)
                continue
            todo.append(L["init"])
            for b in L["back"]:
                todo += [y for y in walk(b) if y.op == "loop" and y in self.v.loops and (y is b or b.op != "upd" and y in [z for _, z in leaves(b)])]
                for y in walk(b):
                    if y.op == "upd":
                        for path, val in y.a[1]:
                            i = path[0][1] if len(path) == 1 and isinstance(path[0], tuple) else None
                            if i is None:
                                continue
                            n += 1
                            vals = leaves(val)
                            good = self.v.rw(i) is i1 and all(is_some(z) and self.v.rw(payload(z)) is j1 or z.op == "idx" and self.v.rw(z.a[1]) is i1 and any(p.op == "is" and (p.a[1], val2) in (("T", True), ("Var", False)) for p, val2 in c2)
                                                                 for c2, z in vals) and any(is_some(z) for _, z in vals)
                            self.ob("visited:set", good, "a visit of a child is recorded: %s at %s" % (show(val), show(i)))
        self.ob("visited:some", n > 0, "a visit of a child is recorded")
        for t in starts:
            cs = cases(t)
            if not cs:
                self.open("visited:start", t)
                continue
            self.ob("visited:start", all(is_none(y) for y, _ in cs), "no child is visited before: " + show(t))
