"""Rules about approximations and coarse-to-fine recognition."""
from base import *
from pat import *
from grammar import after_all, list_of
from derivations import empty_list
from storage import args, under
from automata import lit, leaves, given

KEEP = ("approximate_instruction", "ApproximationStrategy::approximate_storage", "unapproximate_transition", "unapproximate_run", "check_run", "Automaton::initial", "Automaton::transitions", "from_transitions",
        "peek_input", "next_input", "TreeStack::down", "current_symbol")


def keep(g):
    n = g["nname"]
    return n.endswith(KEEP) or "Pushdown<" in n or "push_down::Pushdown::" in n


def key_of(t, tr):
    """the fields of a transition that a key depends on, or None"""
    if t is tr or is_adt(t, "Transition"):
        return {"word", "instruction", "weight"}
    parts = list(t.a) if t.op == "tuple" else [t]
    out = set()
    for x in parts:
        e = None
        for n in ("word", "instruction", "weight"):
            if x is fld(tr, n):
                e = n
        if e is None and x.op == "call" and x.a[0].endswith("approximate_instruction"):
            e = "instruction"
        if e is None and empty_list(x):
            continue
        if e is None:
            return None
        out.add(e)
    return out


def flat(t):
    """[(element, conjunction)], also if the elements are lists themselves"""
    out = []
    for el, c in cases(t):
        if el.op == "idx" and el.a[0].op in ("coll", "colls"):
            el = el.a[0]
        if el.op in ("coll", "colls", "cat") or is_call(el, "into_iter", "collect", "from") and len(el.a[1]) == 1 and el.a[1][0].op == "coll":
            out += [(x, c | k) for x, k in flat(el if el.op != "call" else el.a[1][0])]
        else:
            out.append((el, c))
    return out


# ---------------------------------------------------------------- Y01
def y01(ctx):
    ty = r"approximation::ApproximationInstance\b"
    used = {}
    f = ctx.method(ty, None, "approximate_transition")
    if f:
        s, t = args(f)
        v = ctx.view(f, noinline=keep)
        I2 = CALL("approximate_instruction", ANY, fld(t, "instruction"))
        for k, r in paths(v):
            if not is_adt(r, "Transition"):
                ctx.undecided("transition", show(r), f)
                continue
            ctx.ob("transition:word", field(r, "word") is fld(t, "word"), "an approximated transition reads the same word: " + show(field(r, "word")), f)
            ctx.ob("transition:weight", field(r, "weight") is fld(t, "weight"), "an approximated transition has the same weight: " + show(field(r, "weight")), f)
            ctx.ob("transition:instruction", first(I2, field(r, "instruction")) is not None, "its instruction is approximated: " + show(field(r, "instruction")), f)
        put = [x for x in v.events if x.kind == "call" and x.path.endswith(("::push", "::insert")) and len(x.args) > 1 and x.args[-1] is t]
        ctx.ob("remembered", len(put) == 1 and same(put[0].cond) if put else False, "every transition is remembered under its approximation", f)
        for x in v.events:
            if x.kind == "call" and x.path.endswith("Map::entry") and len(x.args) == 2:
                key = x.args[1]
                if key.op == "tuple":
                    used["put"] = key_of(mk("tuple", *[fld(t, "word") if y is fld(t, "word") else y for y in key.a]), t)
                else:
                    used["put"] = key_of(key, t)
    f = ctx.method(ty, None, "unapproximate_transition")
    if f:
        s, t = args(f)
        v = ctx.view(f, noinline=keep)
        for k, r in paths(v):
            for x in list(walk(r)) + [y for p, _ in k for y in walk(p)]:
                if x.op == "call" and x.a[0].endswith("Map::get") and len(x.a[1]) == 2:
                    used["get"] = key_of(x.a[1][1], t)
                    ctx.ob("back:map", x.a[1][0].op == "f" and x.a[1][0].a[0] is s, "transitions are looked up in the map of approximated transitions: " + show(x.a[1][0]), f)
            got = first(F(CALL("get", ANY, ANY), "Some:0"), r)
            hit = [b for p, b in k if p.op == "is" and p.a[1] == "Some"]
            if hit == [True]:
                ctx.ob("back:all", got is not None, "all transitions with this approximation are given: " + show(r), f)
            elif hit == [False]:
                ctx.ob("back:none", empty_list(r), "there is none only if nothing was approximated by it: " + show(r), f)
            else:
                ctx.undecided("back", show(r), f)
    if used.get("put") is None or used.get("get") is None:
        ctx.undecided("key", str(used), f)
    else:
        ctx.ob("key:same", used["put"] == used["get"] and {"instruction", "word"} <= used["get"], "a transition is looked up under the key where it was put: %s, %s" % (sorted(used["put"]), sorted(used["get"])), f)
        ctx.ob("key:weight", "weight" not in used["get"], "a transition is found again if its weight was added to that of an equal one: " + ", ".join(sorted(used["get"])), f)
    f = ctx.fn(r"ApproximationStrategy::approximate_automaton$")
    if f:
        s, a = args(f)
        v = ctx.view(f, noinline=keep)
        ts = CALL("Automaton::transitions", a)
        for k, r in paths(v):
            if r.op != "tuple" or not is_call(r.a[0], "from_transitions"):
                ctx.undecided("automaton", show(r), f)
                continue
            l, ini = r.a[0].a[1]
            X = IX(ts, I("i"))
            one = ADT("Transition", word=F(X, "word"), weight=F(X, "weight"), instruction=CALL("approximate_instruction", ANY, F(X, "instruction")))
            ctx.ob("automaton:transitions", first(COLL(one, [MORE(ts, I("i"))], [], None), l) is not None, "every transition of the automaton is approximated: " + show(l), f)
            ctx.ob("automaton:initial", first(CALL("approximate_storage", s, CALL("Automaton::initial", a)), ini) is not None, "the initial storage is approximated: " + show(ini), f)
            m = field(r.a[1], "reverse_transition_map") if is_adt(r.a[1], "ApproximationInstance") else None
            if m is None:
                ctx.undecided("automaton:instance", show(r.a[1]), f)
                continue
            e = first(COLL(TUP(ANY, X), [MORE(ts, I("i"))], [], ("group:BTreeMap", "group:HashMap")), m)
            ctx.ob("automaton:instance", e is not None or not cases(m), "all approximated transitions can be found again: " + show(m), f)
    f = ctx.method(ty, None, "unapproximate_run")
    if f:
        s, run = args(f)
        v = ctx.view(f, noinline=keep)
        n = 0
        over = set()
        grows = lambda t: t in v.loops and any(is_call(x, "Pushdown::push") for b in v.loops[t]["back"] for x in walk(v.rw(b)))
        for t, L in v.loops.items():
            for b in L["back"]:
                h = b.a[1][0] if is_call(b, "From::from", "from", "into") and len(b.a[1]) == 1 else b
                for el, c in flat(v.rw(h)):
                    if not is_call(el, "Pushdown::push"):
                        continue
                    n += 1
                    alt = CALL("unapproximate_transition", s, IX(ANY, I("k")))
                    e = first(CALL("push", IX(V("runs"), I("i")), IX(V("alts"), I("j"))), el)
                    ctx.ob("run:step", e is not None and first(alt, e["alts"]) is not None, "each run so far is followed by each transition: " + show(el), f)
                    if e is None:
                        continue
                    src = e["alts"].a[1][1].a[0] if is_call(e["alts"], "unapproximate_transition") and e["alts"].a[1][1].op == "idx" else None
                    ctx.ob("run:order", src is not None and (is_call(src, "Pushdown::iter") and src.a[1][0] is run or src is run or is_call(src, "into_iter", "to_vec", "into") and src.a[1][0] is run),
                           "the transitions of the run are taken in order: " + show(src or e["alts"]), f)
                    ctx.ob("run:all", not [l for l in c if l[0].op != "more"], "all combinations are built: " + lit(c), f)
                    mine = e["runs"] is t or v.rw(e["runs"]) is v.rw(t)
                    over.add(t if mine else e["runs"])
                    ctx.ob("run:carried", mine or grows(e["runs"]), "the runs so far are those of the transitions before: " + show(e["runs"]), f)
        for t in over:
            i0 = v.loops[t]["init"] if t in v.loops else t
            if t in v.loops:
                one = [x for x in walk(i0) if is_adt(x, "Pushdown", "Empty") or is_call(x, "Pushdown::new")]
                ctx.ob("run:start", len(set(one)) == 1 and not [x for x in walk(i0) if is_adt(x, "Pushdown", "Cons")], "it begins with one empty run: " + show(i0), f)
        if n == 0:
            ctx.undecided("run", "no step", f)
    # ---- relabelling
    ty = r"relabel::RlbElement\b"
    f = ctx.method(ty, r"ApproximationStrategy", "approximate_storage")
    if f:
        s, pd = args(f)
        for k, r in paths(ctx.view(f)):
            ctx.ob("relabel:storage", relabelled(field(r, "elements") if is_adt(r, "PushDown") else r, fld(s, "mapping"), fld(pd, "elements")), "each symbol of the stack is relabelled in its place: " + show(r), f)
    f = ctx.method(ty, r"ApproximationStrategy", "approximate_instruction")
    if f:
        s, ins = args(f)
        for k, r in paths(ctx.view(f)):
            for n in ("current_val", "new_val"):
                ctx.ob("relabel:" + n, is_adt(r, "PushDownInstruction") and relabelled(field(r, n), fld(s, "mapping"), fld(ins, "Replace:" + n)), "each symbol is relabelled in its place: " + show(r), f)
    # ---- tree stacks to pushdowns
    ty = r"tts::TTSElement\b"
    f = ctx.method(ty, r"ApproximationStrategy", "approximate_instruction")
    if f:
        s, ins = args(f)
        seen = set()
        for k, r0 in paths(ctx.view(f)):
            for kind in [p.a[1] for p, b in k if p.op == "is" and p.a[0] is ins and b]:
                seen.add(kind)
                r = under(r0, [(mk("is", ins, x), x == kind) for x in ("Up", "Push", "Down")])
                if not is_adt(r, "PushDownInstruction"):
                    ctx.undecided("tts:" + kind, show(r), f)
                    continue
                g = lambda n: fld(ins, "%s:%s" % (kind, n))
                pick = lambda l: [under(x, [(mk("is", ins, y), y == kind) for y in ("Up", "Push", "Down")]) for x in l]
                want = {"current_val": [g("current_val"), g("old_val")], "new_val": [g("new_val")]} if kind == "Down" else \
                    {"current_val": [g("current_val")], "new_val": [g("current_val"), g("new_val")]}
                for n, ws in want.items():
                    for c, x in alts(field(r, n)):
                        l = given(x)
                        if l is None:
                            ctx.undecided("tts:%s:%s" % (kind, n), show(x), f)
                            continue
                        l = pick(l)
                        ctx.ob("tts:%s:%s" % (kind, n), len(l) == len(ws) and all(y is z or eq_under(y, z, c) for y, z in zip(l, ws)), "%s replaces the right symbols: %s is %s" % (kind, n, [show(y) for y in l]), f)
        ctx.ob("tts:all", seen == {"Up", "Push", "Down"}, "all instructions are approximated: " + ", ".join(sorted(seen)), f)
    f = ctx.method(ty, r"ApproximationStrategy", "approximate_storage")
    if f:
        s, ts = args(f)
        v = ctx.view(f, noinline=keep)
        for k, r in paths(v):
            el = field(r, "elements") if is_adt(r, "PushDown") else r
            rev = el.op == "eff" and is_call(el.a[0], "reverse")
            base = el.a[0].a[1][0] if rev else el
            L = v.loops.get(base)
            if L is None:
                ctx.undecided("tts:storage", show(r), f)
                continue
            init = given(L["init"])
            cur = lambda x: CALL("current_symbol", x)
            ctx.ob("tts:storage:top", init is not None and len(init) == 1 and first(cur(ts), init[0]) is not None, "the symbol at the pointer is on top: " + show(L["init"]), f)
            for b in L["back"]:
                ok = b.op == "eff" and is_call(b.a[0], "push", "insert") and b.a[0].a[1][0] is base
                if not ok:
                    ctx.undecided("tts:storage:step", show(b), f)
                    continue
                front = is_call(b.a[0], "insert") and b.a[0].a[1][1] is const(0)
                e = first(cur(F(CALL("down", V("p")), "Ok:0")), b.a[0].a[1][-1])
                L2 = v.loops.get(e["p"]) if e else None
                ctx.ob("tts:storage:step", e is not None and L2 is not None and L2["init"] is ts and all(first(F(CALL("down", e["p"]), "Ok:0"), x) is not None for x in L2["back"]),
                       "the symbols on the way down to the bottom follow: " + show(b), f)
                for t2, c2 in ((base, L["backc"]), (e["p"], L2["backc"])) if e and L2 else ():
                    more = [l for d in c2 or () for kk in d for l in kk if not (l[0].op == "is" and (is_call(l[0].a[0], "down") and l[0].a[0].a[1][0] is e["p"] or l[0].a[0] is fld(e["p"], "parent")))]
                    ctx.ob("tts:storage:all", not more, "it goes on until there is nothing below: " + lit(more), f)
                ctx.ob("tts:storage:order", rev != front, "the bottom symbol comes first", f)


def eq_under(x, y, c):
    """x equals y in every case of c"""
    return bool(c) and all(any(b and p.op == "eq" and set(p.a) == {x, y} for p, b in k) for k in c)


def relabelled(t, m, src):
    return first(COLL(CALL("fnvalue", m, IX(src, I("i"))), [MORE(src, I("i"))], [], ("Vec", "")), t) is not None


# ---------------------------------------------------------------- Y02
def y02(ctx):
    f = ctx.method(r"coarse_to_fine::CoarseToFineRecogniser\b", r"Recognisable", "recognise")
    if f:
        s, word = args(f)
        for k, r in paths(ctx.view(f)):
            if not is_adt(r, "CoarseToFineParseForest"):
                ctx.undecided("recognise", show(r), f)
                continue
            fs = dict(r.a[2])
            src = [x for x in fs.values() if is_call(x, "recognise")]
            ctx.ob("recognise:coarse", len(src) == 1 and first(CALL("recognise", fld(s, "sublevel"), word), src[0]) is not None, "the coarse recogniser reads the whole word: " + show(r), f)
            ctx.ob("recognise:fine", fld(s, "recogniser") in fs.values() and fld(s, "approximation_instance") in fs.values(), "runs are translated back and checked with the fine automaton: " + show(r), f)
            ctx.ob("recognise:empty", is_none(fs.get("input_buffer", mk("adt", OPT, "None", ()))) and all(empty_list(x) for n, x in fs.items() if n == "output_buffer"), "nothing is buffered at the start: " + show(r), f)
    ty = r"coarse_to_fine::CoarseToFineParseForest\b"
    f = ctx.method(ty, None, "next_input", quiet=True)
    if f:
        s = args(f)[0]
        buf, src = fld(s, "input_buffer"), fld(s, "sublevel_parses")
        v = ctx.view(f, noinline=keep)
        asked = [p for k, r in paths(v) for x in [r] + [q for q, _ in k] for p in walk(x) if p.op == "is" and p.a[0] is buf]
        ctx.ob("input:asked", bool(asked), "a parse that was looked at is not skipped", f)
        for k, r in paths(v):
            kept = [b for p, b in k if p is mk("is", buf, "Some")]
            if kept == [True]:
                ctx.ob("input:buffered", r is fld(buf, "Some:0"), "a parse that was looked at comes first: " + show(r), f)
            elif is_some(r):
                ctx.ob("input:next", first(IX(src, I("i")), payload(r)) is not None, "then the next coarse parse: " + show(r), f)
            elif is_none(r):
                ctx.ob("input:end", any(p.op == "more" and p.a[0] is src and not b for p, b in k), "it ends with the coarse parses: " + lit(k), f)
        ws = [x for x in v.events if x.kind == "write" and x.args and x.args[0] is s and x.extra and x.extra[1] and x.extra[1][0] == "input_buffer"]
        last = ws[-1] if ws else None
        ctx.ob("input:cleared", last is not None and len(last.extra[1]) == 1 and is_none(last.args[1]), "a parse that was handed out is not buffered any more, so the next one is read", f)
    f = ctx.method(ty, None, "peek_input", quiet=True)
    if f:
        s = args(f)[0]
        buf, src = fld(s, "input_buffer"), fld(s, "sublevel_parses")
        v = ctx.view(f, noinline=keep)
        for k, r0 in paths(v):
            r = under(r0, k)
            kept = [b for p, b in k if p is mk("is", buf, "Some")]
            if is_some(r):
                x = payload(r)
                good = x is fld(buf, "Some:0", "Some:0") if kept == [True] else first(IX(src, I("i")), x) is not None
                ctx.ob("peek:some", good, "it is the buffered parse or else the next one: " + show(x), f)
            elif is_none(r):
                ctx.ob("peek:none", kept == [True] and any(p.op == "is" and p.a[0] is fld(buf, "Some:0") and not b for p, b in k) or any(p.op == "more" and p.a[0] is src and not b for p, b in k),
                       "there is none only at the end: " + lit(k), f)
        ws = [x for x in v.events if x.kind == "write" and x.args and x.args[0] is s and x.extra and x.extra[1] and x.extra[1][0] == "input_buffer"]
        ctx.ob("peek:kept", bool(ws) and all(is_some(x.args[1]) for x in ws), "a parse that is looked at is kept", f)
    f = ctx.method(ty, r"Iterator", "next")
    if f:
        v = ctx.view(f, noinline=keep)
        out = lambda t: t.op == "f" and t.a[1] == "output_buffer"
        is_in = lambda t, n: is_call(t, n) or t.op == "f" and t.a[1] in ("Some:0",) and is_call(t.a[0], n)
        whole = any(x.kind == "call" and x.path.endswith(("next_input", "peek_input")) for x in v.events)
        for k, r in paths(v):
            read = [b for p, b in k if p.op == "is" and p.a[1] == "Some" and is_call(p.a[0], "next_input")]
            peeked = [b for p, b in k if p.op == "is" and p.a[1] == "Some" and is_call(p.a[0], "peek_input")]
            less = [(p, b) for p, b in k if p.op == "lt"]
            if not whole:
                ctx.undecided("next", lit(k), f)
                continue
            if is_none(r):
                ctx.ob("next:end", read == [False], "it ends only when the coarse parses are used up: " + lit(k), f)
            elif is_call(r, "pop"):
                ctx.ob("next:best", False in peeked or len(less) == 1 and not less[0][1] and weights(less[0][0]),
                       "a parse is given only if no coarse parse that is left may lead to a better one: " + lit(k), f)
            else:
                ctx.undecided("next", show(r), f)
        n = 0
        for x in v.events:
            if x.kind == "call" and x.args and out(x.args[0]) and x.path.split("::")[-1] in LOSES:
                ctx.ob("next:kept", False, "no parse that was kept is thrown away: " + x.path.split("::")[-1], f)
            if x.kind == "call" and x.path.endswith("BinaryHeap::push") and len(x.args) == 2:
                n += 1
                el = x.args[1]
                more = flat(el.a[0]) if el.op == "idx" and el.a[0].op in ("coll", "colls") else [(el, frozenset())]
                for e1, _ in more:
                    got = first(IX(CALL("check_run", ANY, IX(CALL("unapproximate_run", ANY, F(CALL("next_input", ANY), "Some:0", "1")), I("i"))), I("j")), e1)
                    ctx.ob("next:checked", got is not None, "the runs behind a coarse run are checked on the fine automaton: " + show(e1), f)
                for kk in list(x.cond) + [c for _, c in more]:
                    extra = [l for l in kk if not (l[0].op == "more" or l[0].op == "lt" and weights(l[0]) or l[0].op == "is" and is_call(l[0].a[0], "next_input", "peek_input", "peek") or l[0].op == "eq" and any(y.op == "len" for y in l[0].a))]
                    ctx.ob("next:all", not extra, "all of their results are kept: " + lit(extra), f)
        if n == 0:
            ctx.undecided("next:push", "", f)


LOSES = ("clear", "drain", "drain_sorted", "retain", "truncate", "take", "replace", "into_sorted_vec", "into_vec")


def weights(p):
    """best output < next input, by weight"""
    a, b = p.a
    has = lambda t, n: any(is_call(x, n) for x in walk(t))
    return has(a, "BinaryHeap::peek") and has(b, "peek_input") and not is_call(b, "BinaryHeap::peek") and (a.op == "f" and a.a[1] == "weight" or is_call(a, "get_weight"))
