"""Rules about the stand-alone data structures: searches, agendas, heaps, multimaps, weights, partitions."""
from fractions import Fraction
from base import *
from pat import *
from ev import subst

SETS = ("BTreeSet", "HashSet")
MAPS = ("BTreeMap", "HashMap")
DONE = (MORE(ANY, ANY), False)      # an inner traversal has ended
PUT1 = ("push", "push_front", "push_back", "insert")


def arg(f, i):
    return mk("arg", i, f["locals"][i]["name"] or "")


# ---------------------------------------------------------------- S01
def additions(v, one=PUT1, only=None):
    """what is put into containers: [(event, element, conjunction)]; elements of a collection x are written x[i]"""
    out = []
    for x in v.events:
        if x.kind != "call" or len(x.args) != 2 or only and not only(x):
            continue
        n = x.path.split("::")[-1]
        if n in ("extend", "append"):
            src = x.args[1]
            if src.op in ("coll", "colls"):
                for el, k in cases(src):
                    out += [(x, el, kk) for kk in c_and(x.cond, frozenset([k]))]
            else:
                i = mk("pos", "ext")
                for k in x.cond:
                    out.append((x, idx(src, i), k | {(mk("more", src, i), True)}))
        elif n in one:
            for k in x.cond:
                out.append((x, x.args[1], k))
    return out


def base_of(x):
    """collection an element was taken from"""
    while x.op in ("f", "idx"):
        if x.op == "idx":
            return x.a[0]
        x = x.a[0]
    return None


def from_self(t, loops):
    """does a state originate in the receiver"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        for y in walk(x):
            if y.op == "arg" and y.a[0] == 1:
                return True
            if y.op == "loop" and y not in seen:
                seen.add(y)
                L = loops.get(y)
                if L and L["init"] is not None:
                    todo.append(L["init"])
    return False


def is_done(p, v):
    return p.op in ("more",) and not v


def no_more(p, v):
    """the agenda is empty (True) / not empty (False), asked beforehand"""
    if is_call(p, "Agenda::is_empty"):
        return v
    if p.op == "eq" and is_call(p.a[0], "Agenda::len") and cval(p.a[1]) == 0:
        return v
    if p.op == "lt" and cval(p.a[0]) == 0 and is_call(p.a[1], "Agenda::len"):
        return not v
    if p.op == "is" and is_call(p.a[0], "Agenda::peek"):
        return v == (p.a[1] == "None")
    return None


def check_next(ctx, f, unique):
    e = ctx.view(f)
    who = "unique search" if unique else "search"
    pops = events(e, "call", "Agenda::pop")
    ctx.ob(who + ":pops", len(pops) >= 1 and all(from_self(p.args[0], e.loops) for p in pops),
           "a step takes its node from the agenda of the search", f)
    popset = set(p.ret for p in pops)
    nsome = 0
    for k, v in paths(e):
        if is_none(v):
            good = any(p.op == "is" and not val and p.a[0] in popset or no_more(p, val) is True for p, val in k)
            ctx.ob(who + ":end-iff-empty", good, "the end is reported only when the agenda is empty; here: " + showc(frozenset([k])), f)
            continue
        if not is_some(v):
            ctx.ob(who + ":result", False, "a step returns a node or the end, not " + show(v), f)
            continue
        nsome += 1
        x = payload(v)
        src = [p for p, val in k if p.op == "is" and val and p.a[0] in popset and x is field(p.a[0], "0", "Some")]
        ctx.ob(who + ":returns-popped", bool(src), "the node returned is the node taken from the agenda, not " + show(x), f)
        extra = []
        is_new = False
        applied = set(ev.ret for ev in e.events if ev.kind == "call" and ev.path == "fnvalue")
        for p, val in k:
            if p.op == "is" and p.a[0] in popset and val or is_done(p, val) and (not has(p, lambda y: y is x) or has(p, lambda y: y in applied)) or no_more(p, val) is False:
                continue
            if unique and fresh(p, val, x) is True:
                is_new = True
                continue
            extra.append((p, val))
        ctx.ob(who + ":no-other-condition", not extra, "a popped node is returned under no further condition; extra: " +
               showc(frozenset([frozenset(extra)])), f)
        if unique:
            ins = [c for c in events(e, "call", "BTreeSet::insert", "HashSet::insert") if c.args[1] is x]
            asked = any(is_call(p, "insert") and val and fresh(p, val, x) for p, val in k)
            sure = asked or any(all(l in k or fresh(l[0], l[1], x) is True or l[0].op == "is" and l[0].a[0] in popset and l[1] or l[0].op == "more" and not l[1] for l in kk)
                                for c in ins for kk in c.cond)
            ctx.ob(who + ":fresh", bool(ins) and is_new and sure, "a node is returned only after it was recorded as new", f)
        # successors
        succ = [ev for ev in e.events if ev.kind == "call" and ev.path == "fnvalue" and x in ev.args[1:]]
        ctx.ob(who + ":expands", len(succ) >= 1, "the successor function is applied to the returned node", f)
        found = False
        for ev, el, kk in additions(e):
            hit = [s for s in succ if any(y is s.ret for y in walk(el))]
            if not hit:
                continue
            m = first(IX(hit[0].ret, I("s")), el)
            ctx.ob(who + ":successor-unchanged", m is not None, "every successor is put on the agenda as it is; here: " + show(el), f)
            if m is None:
                continue
            bad, queued = [], (mk("more", hit[0].ret, m["s"]), True) in kk
            for p, val in kk:
                if p is mk("more", hit[0].ret, m["s"]) and val or (p, val) in k or is_done(p, val) and not has(p, lambda y: y is el) or p.op == "is" and p.a[0] in popset and val or \
                        no_more(p, val) is False:
                    continue
                if unique and fresh(p, val, el) is True and is_call(p, "contains") and from_self(p.a[1][0], e.loops):
                    continue
                if unique and fresh(p, val, x) is True:
                    continue
                bad.append((p, val))
            ctx.ob(who + ":all-successors", not bad and queued, "no successor is left out%s; here they are filtered by: %s" % (
                " except nodes already returned" if unique else "", showc(frozenset([frozenset(bad)]))), f)
            found = found or queued and not bad
        ctx.ob(who + ":successors-queued", found, "the successors of a returned node are put on the agenda", f)
    ctx.ob(who + ":some", nsome >= 1, "a step can return a node", f)


def every(src, i="i"):
    """the elements of a collection, all of them and each once"""
    return COLL(IX(src, I(i)), [MORE(src, I(i))])


def s01(ctx):
    f = ctx.method(r"^search::Search<A", r"Iterator", "next")
    g = ctx.method(r"^search::unique::Search<", r"Iterator", "next")
    if f:
        check_next(ctx, f, False)
    if g:
        check_next(ctx, g, True)
    # constructors
    for name, ty in (("dfs", r"Search<std::vec::Vec<"), ("bfs", r"Search<std::collections::VecDeque<"),
                     ("weighted", r"Search<agenda::binary_heap::weighted::BinaryHeap<")):
        c = ctx.method(ty, None, name)
        if not c:
            continue
        e = ctx.view(c)
        a, s = arg(c, 1), arg(c, 2)
        one = IX(a, I("i"))
        item = ALT(one, ADT("WeightedItem", _0=one, _1=CALL("Weighted::get_weight", one)))
        pushed = [first(item, el) is not None and first_conj([MORE(a, I("i"))], [], k) is not None for x, el, k in additions(e)]
        for k, v in paths(e):
            fs = [x for _, x in v.a[2]] if v.op == "adt" else []
            good = any(first(COLL(item, [MORE(a, I("i"))]), x) is not None or is_adt(x, "BinaryHeap") and
                       first(COLL(item, [MORE(a, I("i"))]), field(x, "0")) is not None or x is a for x in fs)
            ctx.ob(name + ":initials", good or bool(pushed) and all(pushed) and any(x.op in ("loop", "eff") for x in fs),
                   "%s starts with every given node: %s" % (name, show(v)), c)
            ctx.ob(name + ":successors", s in fs, "%s keeps the successor function" % name, c)
    c = ctx.method(r"^search::Search<A", None, "with_agenda")
    if c:
        for k, v in paths(ctx.view(c)):
            ctx.ob("with_agenda", v.op == "adt" and len(v.a[2]) == 2 and set(x for _, x in v.a[2]) == {arg(c, 1), arg(c, 2)},
                   "with_agenda keeps agenda and successor function", c)
    c = ctx.method(r"^search::Search<A", None, "uniques")
    if c:
        for k, v in paths(ctx.view(c)):
            fs = [x for _, x in v.a[2]] if v.op == "adt" else []
            ctx.ob("uniques", len(fs) == 2 and arg(c, 1) in fs and any(is_call(x, "new", "default") and "Set" in x.a[0] for x in fs),
                   "the duplicate-free search takes over the whole search and starts with no node seen", c)
    # bulk insertion
    ext = ctx.fn(r"^search::agenda::Agenda::extend$")
    if ext:
        e = ctx.view(ext)
        a = arg(ext, 2)
        ins = additions(e)
        good = [i for i in ins if first(IX(a, I("i")), i[1]) is not None and i[0].path.endswith("Agenda::push") and
                first_conj([MORE(a, I("i"))], [], i[2], first(IX(a, I("i")), i[1])) is not None]
        ctx.ob("extend:every", len(good) == 1 and len(ins) == 1, "bulk insertion pushes every element once, unconditionally: " +
               "; ".join("%s if %s" % (show(el), showc(frozenset([k]))) for _, el, k in ins), ext)
        for k, v in paths(e):
            ctx.ob("extend:all", not any(p.op == "more" and val for p, val in k), "bulk insertion goes on to the last element: " + showc(frozenset([k])), ext)


# ---------------------------------------------------------------- S02


def state_calls(e):
    """calls that change something reachable from the receiver"""
    out = []
    for x in e.events:
        if x.kind == "call" and x.callee is not None:
            out.append(x)
    return out


def prod(ctx, f, *names):
    """the calls of f to one of the library operations"""
    e = ctx.view(f)
    return [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] in names]


def peek_value(v):
    return payload(v) if is_some(v) else None


def agenda_impl(ctx, ty, short):
    fs = {n: ctx.method(ty, r"agenda::Agenda$|agenda::Agenda>$", n) for n in ("push", "pop", "peek", "len")}
    if any(v is None for v in fs.values()):
        return
    wr = lambda f: [x for x in ctx.view(f).events if x.kind == "write"]
    kind = short
    # pop
    e = ctx.view(fs["pop"])
    pops = [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] in
            ("pop", "pop_front", "pop_back", "pop_max", "pop_min", "remove", "swap_remove", "drain", "split_off", "clear", "truncate")]
    ok1 = len(pops) == 1 and all(frozenset() in p.cond for p in pops)
    ctx.ob(kind + ":pop-removes-one", ok1, "pop removes exactly one element: " + ", ".join(p.path for p in pops), fs["pop"])
    if not ok1:
        return
    popn = pops[0].path.split("::")[-1]
    heap = kind in ("BinaryHeap", "BeamHeap", "LimitedHeap")
    for k, v in paths(e):
        if is_none(v):
            ctx.ob(kind + ":pop-none", nothing(pops[0].ret) in k, "pop returns nothing only if the agenda is empty", fs["pop"])
        else:
            x = payload(v) if is_some(v) else v
            want = field(pops[0].ret, "0", "Some")
            if heap:
                want = field(want, "0")
            ctx.ob(kind + ":pop-value", x is want or v is pops[0].ret and not heap, "pop returns the removed element itself, not " + show(x), fs["pop"])
    # push
    e = ctx.view(fs["push"])
    elem = mk("arg", 2, e.f["locals"][2]["name"] or "")
    ins = [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] in
           ("push", "push_front", "push_back", "push_pop_min", "push_pop_max", "insert", "replace_min", "replace_max", "append", "extend")
           and "Agenda" not in x.path]
    ctx.ob(kind + ":push-inserts", len(ins) >= 1, "push inserts the element", fs["push"])
    for x in ins:
        w = x.args[-1]
        if heap:
            ctx.ob(kind + ":push-weight", is_adt(w, "WeightedItem") and field(w, "0") is elem and
                   is_call(field(w, "1"), "Weighted::get_weight") and field(w, "1").a[1][0] is elem,
                   "the element is stored together with its own weight, here: " + show(w), fs["push"])
        else:
            ctx.ob(kind + ":push-value", w is elem and frozenset() in x.cond, "the element itself is stored unconditionally: " + show(w), fs["push"])
    at_front = lambda x: x.path.split("::")[-1] == "insert" and len(x.args) == 3 and cval(x.args[1]) == 0
    insn = sorted(set("push_front" if at_front(x) else x.path.split("::")[-1] for x in ins))
    if kind == "Vec":
        ctx.ob("Vec:lifo", insn == ["push"] and popn == "pop", "a stack agenda removes what was inserted last (%s/%s)" % (insn, popn), fs["pop"])
    elif kind == "VecDeque":
        ctx.ob("VecDeque:fifo", (insn, popn) in ((["push_front"], "pop_back"), (["push_back"], "pop_front")),
               "a queue agenda removes what was inserted first (%s/%s)" % (insn, popn), fs["pop"])
    elif kind == "LimitedHeap":
        ctx.ob("LimitedHeap:max-first", popn == "pop_max", "the element of the greatest priority comes first (%s)" % popn, fs["pop"])
    else:
        ctx.ob(kind + ":max-first", popn == "pop" and pops[0].path.endswith("BinaryHeap::pop") and "Reverse" not in (pops[0].callee.get("args") or [""])[0],
               "the element of the greatest priority comes first", fs["pop"])
    # nothing else happens to the elements
    for n, mine in (("push", ins), ("pop", pops), ("peek", []), ("len", [])):
        e2 = ctx.view(fs[n])
        rets = set(mk("eff", x.ret, 0) for x in mine)
        other = [x for x in e2.events if x.kind == "write" and x.args and x.args[0] is mk("arg", 1, "self") and not any(y in rets for y in walk(x.args[1]))]
        ctx.ob(kind + ":%s-only" % n, not other, "%s does nothing else to the agenda: %s" % (n, ", ".join(show(x.args[1]) for x in other)), fs[n])
    # peek
    e = ctx.view(fs["peek"])
    for k, v in paths(e):
        if is_none(v):
            good = any((p.op == "is" and not val) or (p.op == "eq" and val and p.a[0].op == "len") or
                       (p.op == "lt" and not val) for p, val in k)
            ctx.ob(kind + ":peek-none", good, "peek returns nothing only if the agenda is empty: " + showc(frozenset([k])), fs["peek"])
            continue
        x = payload(v) if is_some(v) else field(v, "0", "Some")
        if kind == "Vec" or kind == "VecDeque":
            selfv = mk("arg", 1, "self")
            last = idx(selfv, sub(length(selfv), const(1)))
            first = idx(selfv, const(0))
            want = last if popn in ("pop", "pop_back") else first
            ctx.ob(kind + ":peek-agrees", x is want, "peek shows the element that pop removes, here: " + show(x), fs["peek"])
        else:
            src = x.a[0] if x.op == "f" else x
            b, p = path_of(x)
            ctx.ob(kind + ":peek-agrees", x.op == "f" and x.a[1] == "0" and b.op == "call" and p[-1] == "0" and
                   b.a[0].split("::")[-1] == {"pop": "peek", "pop_max": "peek_max"}.get(popn, "?"),
                   "peek shows the element that pop removes, here: " + show(x), fs["peek"])
    # len
    e = ctx.view(fs["len"])
    for k, v in paths(e):
        good = v.op == "len" or is_call(v, "len")
        inner = v.a[0] if v.op == "len" else (v.a[1][0] if good else None)
        ctx.ob(kind + ":len", good and path_of(inner)[0].op == "arg", "len counts the elements of the agenda, here: " + show(v), fs["len"])


def s02(ctx):
    impls = [(r"^std::vec::Vec<I>", "Vec"), (r"^std::collections::VecDeque<I>", "VecDeque"),
             (r"binary_heap::weighted::BinaryHeap<I>", "BinaryHeap"), (r"beam_heap::weighted::BeamHeap<I>", "BeamHeap"),
             (r"limited_heap::weighted::LimitedHeap<I>", "LimitedHeap")]
    n = len([i for i in ctx.p.impls if (i["trait"] or "").endswith("agenda::Agenda") and i["crate"] == "search"])
    ctx.ob("agenda-impls", n == len(impls), "every agenda is analysed: %d implementations, %d known" % (n, len(impls)))
    for ty, short in impls:
        agenda_impl(ctx, ty, short)
    # is_empty
    f = ctx.fn(r"^search::agenda::Agenda::is_empty$")
    if f:
        vs = [v for _, v in paths(ctx.view(f))]
        ok_ = all((v.op == "eq" and is_call(v.a[0], "Agenda::len") and cval(v.a[1]) == 0) or
                  (v.op == "isv" and is_call(v.a[0], "Agenda::peek") and v.a[1] == "None") for v in vs)
        ctx.ob("is_empty", ok_, "an agenda is empty iff its length is zero", f)
    # weighted items are compared by weight, ascending
    a, b = mk("arg", 1, "self"), mk("arg", 2, "other")
    for tr, n, op in ((r"PartialEq", "eq", "eq"), (r"PartialOrd", "partial_cmp", "pcmp"), (r"cmp::Ord", "cmp", "cmp")):
        f = ctx.method(r"weighted::WeightedItem<", tr, n)
        if not f:
            continue
        e = ctx.view(f)
        a, b = [mk("arg", i + 1, f["locals"][i + 1]["name"] or "") for i in (0, 1)]
        wa, wb = field(a, "1"), field(b, "1")
        for k, v in paths(e):
            if op == "eq":
                good = v is eq(wa, wb) or v.op == "isv" and v.a[0] is mk("cmp", wa, wb) and v.a[1] == "Equal"
            elif op == "pcmp":
                good = v is mk("pcmp", wa, wb) or v is some(mk("cmp", wa, wb))
            else:
                good = v is mk("cmp", wa, wb)
            ctx.ob("WeightedItem:" + n, good, "elements are compared by their weights alone, greater weight greater; here: " + show(v), f)
    f = ctx.method(r"weighted::WeightedItem<", r"Weighted$|Weighted>$", "get_weight")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("WeightedItem:get_weight", v is field(mk("arg", 1, "self"), "1"), "the weight of an item is its stored weight", f)
    f = ctx.method(r"weighted::RemoveWeight<", r"Iterator", "next")
    if f:
        e = ctx.view(f)
        for k, v in paths(e):
            if is_some(v):
                x = payload(v)
                b, p = path_of(x)
                ctx.ob("RemoveWeight:item", bool(p) and p[-1] == "0" and "1" not in p[1:], "iteration yields the items", f)
    # collecting into a heap stores every element with its own weight
    f = ctx.method(r"binary_heap::weighted::BinaryHeap<I>", r"FromIterator", "from_iter")
    if f:
        e = ctx.view(f)
        one = IX(arg(f, 1), I("i"))
        item = ADT("WeightedItem", _0=one, _1=CALL("Weighted::get_weight", one))
        for k, v in paths(e):
            x = field(v, "0") if is_adt(v, "BinaryHeap") else v
            ctx.ob("BinaryHeap:collect", first(COLL(item, [MORE(arg(f, 1), I("i"))]), x) is not None,
                   "collecting stores every element with its own weight: " + show(v), f)
    # inherent operations users call directly agree with the trait
    for ty, short in impls[2:]:
        for n in ("pop", "peek", "len"):
            tf, inh = ctx.method(ty, r"agenda::Agenda", n), ctx.method(ty, None, n)
            if tf and inh:
                ctx.ob("%s:inherent-%s" % (short, n), table(ctx.view(tf)) == table(ctx.view(inh)),
                       "the agenda interface and the type's own %s behave alike" % n, tf)
        same_push(ctx, ty, short)


def same_push(ctx, ty, short):
    """the agenda interface pushes as the type itself does"""
    tf, inh = ctx.method(ty, r"agenda::Agenda", "push"), ctx.method(ty, None, "push")
    if tf and inh:
        a, b = [frozenset((x.path, x.args[1:], x.cond) for x in ctx.view(g).events if x.kind == "call" and x.path.split("::")[-1].startswith("push") and not x.path.endswith("Agenda::push")) for g in (tf, inh)]
        ctx.ob("%s:inherent-push" % short, subst(a, arg(tf, 2), arg(inh, 2)) == b, "the agenda interface and the type's own push store under the same conditions", tf)


def table(e):
    return frozenset((c, v) for c, v in e.returns())


# ---------------------------------------------------------------- S03
def s03(ctx):
    same_push(ctx, r"beam_heap::weighted::BeamHeap<I>", "BeamHeap")
    same_push(ctx, r"limited_heap::weighted::LimitedHeap<I>", "LimitedHeap")
    # beam
    for ty, weighted in ((r"^agenda::beam_heap::BeamHeap<", False), (r"beam_heap::weighted::BeamHeap<", True)):
        f = ctx.method(ty, None, "push")
        if not f:
            continue
        e = ctx.view(f)
        tag = "beam%s" % ("-weighted" if weighted else "")
        elem = mk("arg", 2, f["locals"][2]["name"] or "")
        prio = mk("call", "search::agenda::weighted::Weighted::get_weight", (elem,)) if weighted else mk("arg", 3, f["locals"][3]["name"] or "")
        ins = [x for x in e.events if x.kind == "call" and x.path.endswith("BinaryHeap::push")]
        ctx.ob(tag + ":insert", len(ins) >= 1 and all(is_adt(x.args[1], "WeightedItem") and field(x.args[1], "0") is elem and
                                                      field(x.args[1], "1") is prio for x in ins),
               "an admitted element is stored with its priority", f)

        def is_beam(p):
            if p.op != "lt" or p.a[0] is not prio:
                return False
            m = p.a[1]
            if not (m.op in ("call", "mul")):
                return False
            fs = m.a[1] if m.op == "call" else m.a
            if m.op == "call" and not m.a[0].endswith("Mul::mul"):
                return False
            best = [x for x in fs if any(is_call(y, "BinaryHeap::peek") for y in walk(x)) and path_of(x)[1][-1:] == ["1"]]
            beta = [x for x in fs if path_of(x)[0].op == "arg" and path_of(x)[0].a[0] == 1 and not calls_in(x, "peek")]
            return len(fs) == 2 and len(best) == 1 and len(beta) == 1

        def empty(p, v):
            return v and p.op == "eq" and p.a[0].op == "len" and cval(p.a[1]) == 0 or \
                not v and p.op == "is" and is_call(p.a[0], "BinaryHeap::peek")

        done = set()
        for x in ins:
            for k in x.cond:
                good = any(empty(p, v) for p, v in k) or any(is_beam(p) and not v for p, v in k)
                ctx.ob(tag + ":admits", good, "an element is admitted only into an empty beam or with priority at least best·β; here: " + showc(frozenset([k])), f)
        yes, no = bools(e)
        ctx.ob(tag + ":answer", bool(yes) and bool(no), "push answers whether it admitted the element", f)
        for k in no:
            ctx.ob(tag + ":rejects", any(is_beam(p) and v2 for p, v2 in k), "an element is rejected only with priority below best·β; here: " + showc(frozenset([k])), f)
            ctx.ob(tag + ":answer-false", not any(compatible(k, kk) for x in ins for kk in x.cond), "false is answered only if nothing was stored", f)
        for k in yes:
            ctx.ob(tag + ":answer-true", any(kk <= k for x in ins for kk in x.cond), "true is answered only if the element was stored; here: " + showc(frozenset([k])), f)
        g = ctx.method(ty, None, "new")
        if g:
            for k, v in paths(ctx.view(g)):
                ctx.ob(tag + ":new", any(x.op == "arg" for x in walk(v)), "the beam keeps its factor", g)
    # limited
    for ty, weighted in ((r"^agenda::limited_heap::LimitedHeap<", False), (r"limited_heap::weighted::LimitedHeap<", True)):
        f = ctx.method(ty, None, "push")
        tag = "limited%s" % ("-weighted" if weighted else "")
        if not f:
            continue
        e = ctx.view(f)
        elem = mk("arg", 2, f["locals"][2]["name"] or "")
        prio = mk("call", "search::agenda::weighted::Weighted::get_weight", (elem,)) if weighted else mk("arg", 3, f["locals"][3]["name"] or "")

        def room(p):
            return p.op == "lt" and is_call(p.a[0], "MinMaxHeap::len") and path_of(p.a[1])[0].op == "arg"

        plain = [x for x in e.events if x.kind == "call" and x.path.endswith("MinMaxHeap::push")]
        evict = [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] in ("push_pop_min", "pop_min")]
        other = [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] in ("push_pop_max", "replace_min", "replace_max", "pop_max", "clear", "drain")]
        ctx.ob(tag + ":operations", bool(evict) and not other, "only the lowest priority is ever dropped: " + ", ".join(x.path for x in other), f)
        pp = [x for x in evict if x.path.endswith("push_pop_min")]
        for x in plain + pp:
            w = x.args[1]
            ctx.ob(tag + ":store", is_adt(w, "WeightedItem") and field(w, "0") is elem and field(w, "1") is prio, "an element is stored with its priority", f)
        for x in plain:
            for k in x.cond:
                after = [y for y in evict if y.path.endswith("pop_min") and not y.path.endswith("push_pop_min")]
                good = any(room(p) and v for p, v in k) or any(compatible(k, kk) for y in after for kk in y.cond)
                ctx.ob(tag + ":bound", good, "the heap grows only while it holds fewer elements than its capacity; here: " + showc(frozenset([k])), f)
        for x in evict:
            for k in x.cond:
                ctx.ob(tag + ":evict", any(room(p) and not v for p, v in k), "an element is dropped only when the capacity is reached; here: " + showc(frozenset([k])), f)
        for k, v in paths(e):
            full = any(room(p) and not val for p, val in k)
            if is_none(v):
                ctx.ob(tag + ":answer-none", not full, "nothing is handed back only if nothing was dropped", f)
            elif is_some(v):
                x = payload(v)
                b, p = path_of(x)
                ctx.ob(tag + ":answer-some", full and b in [y.ret for y in evict] and p[-1] == "0", "what push hands back is the dropped element, not " + show(x), f)
        g = ctx.method(ty, None, "with_capacity")
        if g:
            cap = mk("arg", 1, g["locals"][1]["name"] or "")
            for k, v in paths(ctx.view(g)):
                ctx.ob(tag + ":capacity", has(v, lambda x: x.op == "adt" and any(y is cap for _, y in x.a[2])), "the capacity is the one asked for", g)


# ---------------------------------------------------------------- U01
def u01(ctx):
    ty = r"^UniqueHeap<"
    f = ctx.method(ty, None, "push")
    if f:
        e = ctx.view(f)
        item, weight = arg(f, 2), arg(f, 3)
        ins = guarded(ctx, f, e, "push", item, weight, [])
        yes, no = bools(e)
        for k in yes:
            ctx.ob("push:true", not any(fresh(p, v, item) is False for p, v in k) and any(fresh(p, v, item) for p, v in k),
                   "push answers true only for an item that was not held; here: " + showc(frozenset([k])), f)
            ctx.ob("push:stores", any(kk <= k for x in ins for kk in x.cond), "a new item is stored; here: " + showc(frozenset([k])), f)
        for k in no:
            ctx.ob("push:false", any(fresh(p, v, item) is False for p, v in k), "push answers false only for an item that was held; here: " + showc(frozenset([k])), f)
        ctx.ob("push:answers", bool(yes) and bool(no), "push answers whether the item was new", f)
    f = ctx.method(ty, None, "pop")
    if f:
        e = ctx.view(f)
        pops = [x for x in e.events if x.kind == "call" and x.path.endswith("BinaryHeap::pop")]
        ctx.ob("pop:one", len(pops) == 1, "pop removes one element from the heap", f)
        if pops:
            got = field(pops[0].ret, "0", "Some")
            w, it = field(got, "0"), field(got, "1")
            rem = [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] in ("remove", "take") and "HashSet" in x.path]
            for k, v in paths(e):
                if is_some(v):
                    x = payload(v)
                    ctx.ob("pop:value", x.op == "tuple" and x.a == (it, w), "pop returns the removed item with its weight: " + show(x), f)
                    ctx.ob("pop:forget", any(r.args[1] is it and any(kk <= k for kk in r.cond) for r in rem),
                           "an item that was popped may be pushed again", f)
                else:
                    ctx.ob("pop:none", is_none(v) and nothing(pops[0].ret) in k, "pop returns nothing only if the heap is empty", f)
    for n, want in (("peek", "peek"), ("len", "len"), ("is_empty", "eq"), ("into_sorted_vec", "into_sorted_vec")):
        f = ctx.method(ty, None, n)
        if f:
            for k, v in paths(ctx.view(f)):
                core = v.a[0] if v.op == "eq" else v
                a = core.a[1][0] if core.op == "call" else core.a[0] if core.op == "len" else None
                ctx.ob(n, (v.op == want or is_call(v, want)) and a is not None and path_of(a)[0].op == "arg" and len(path_of(a)[1]) == 1,
                       "%s describes the items held: %s" % (n, show(v)), f)
    # every way to make one
    makers = []
    for f in ctx.p.fns.values():
        if f["crate"] == "unique_heap" and f["kind"] != "closure" and not f.get("derived") and f["locals"][0]["ty"].startswith(("UniqueHeap<", "unique_heap::UniqueHeap<")):
            makers.append(f)
    ctx.ob("constructors", len(makers) >= 3, "%d ways to make a heap are analysed" % len(makers))
    for f in makers:
        e = ctx.view(f)
        n = f["nname"].split("::")[-1] + ("<" + f["trait_ref"].split(" as ")[1] if f.get("trait_ref") else "")
        given = arg(f, 1) if f["argc"] else None
        el = IX(given, I("i"))
        for k, v in paths(e):
            if not is_adt(v, "UniqueHeap"):
                ctx.ob("make:" + n, v.op == "call" and "UniqueHeap" in v.a[0], "a heap is built from its two parts: " + show(v), f)
                continue
            parts = [x for _, x in v.a[2]]
            if all(x.op == "call" and x.a[0].split("::")[-1] in NEW for x in parts):
                ctx.ob("make:" + n, given is None or not has(v, lambda x: x is given), "a heap made without items is empty: " + show(v), f)
                continue
            if given is None:
                ctx.ob("make:" + n, False, "a heap made without items is empty: " + show(v), f)
                continue
            # items and weights in the order of their parts
            nw, ni = ("0", "1") if n.startswith("from<") else ("1", "0")
            W, It = F(el, nw), F(el, ni)
            new = [CALL("insert", ANY, It), (CALL(("contains", "contains_key"), ANY, It), False)]
            heap = COLL(TUP(W, It), [MORE(given, I("i")), ALT(new[0])], kinds=("BinaryHeap", "Default"))
            heap2 = COLL(TUP(W, It), [MORE(given, I("i")), new[1]], kinds=("BinaryHeap", "Default"))
            held = COLL(It, [MORE(given, I("i"))], opt=[new[1], new[0]], kinds=("HashSet", "Default"))
            hs = [x for x in parts if first(heap, x) is not None or first(heap2, x) is not None]
            ss = [x for x in parts if first(held, x) is not None]
            ctx.ob("make-heap:" + n, len(hs) == 1, "every item enters the heap once, with its weight: " + show(v), f)
            ctx.ob("make-held:" + n, len(ss) == 1 and len(parts) == 2, "exactly the items of the heap are recorded as held: " + show(v), f)
            ctx.ob("make-all:" + n, not any(p.op == "more" and val for p, val in k), "a heap is complete only after all items were added: " + showc(frozenset([k])), f)


NEW = ("new", "default", "with_capacity", "with_capacity_and_hasher", "with_hasher")


def guarded(ctx, f, e, n, item, weight, intro):
    ins = [x for x in e.events if x.kind == "call" and x.path.endswith("BinaryHeap::push")]
    ctx.ob("inserts:" + n, len(ins) >= 1, "push inserts", f)
    rec = [y for y in e.events if y.kind == "call" and y.path.endswith("HashSet::insert")]
    for x in ins:
        t = x.args[1]
        ctx.ob("stored:" + n, t.op == "tuple" and t.a == (weight, item), "the item is stored with its weight: " + show(t), f)
        for k in x.cond:
            ctx.ob("once:" + n, k and all(fresh(p, val, item) for p, val in k), "an item enters the heap iff it was not held; here: %s if %s" % (show(t), showc(frozenset([k]))), f)
            ctx.ob("recorded:" + n, any(y.args[1] is item and any(kk <= k for kk in y.cond) for y in rec), "an item that enters the heap is recorded as held", f)
    for y in rec:
        ctx.ob("no-ghost:" + n, y.args[1] is item, "only the item is recorded as held: " + show(y.args[1]), f)
        for k in y.cond:
            ctx.ob("no-ghost:" + n, not any(fresh(p, v, item) is False for p, v in k), "only items of the heap are recorded as held", f)
    return ins


# ---------------------------------------------------------------- V01
def v01(ctx):
    n_un = 0
    for f in ctx.p.fns.values():
        if f["crate"] != "vecmultimap" or f["kind"] == "closure" or f.get("derived"):
            continue
        e = ctx.view(f)
        nm = f["nname"]
        for x in e.events:
            if x.kind == "call" and x.path == "get_unchecked":
                n_un += 1
                for c, v in alts(x.args[0]):
                    for k in (c_and(c, x.cond) or [frozenset()]):
                        ctx.ob("in-bounds:" + nm, in_bounds(v, x.args[1], k), "unchecked access is within bounds: %s [%s] if %s" % (
                            show(v), show(x.args[1]), showc(frozenset([k]))), f, x.line)
            if x.kind == "call" and x.path.split("::")[-1] in ("truncate", "clear", "remove", "pop", "drain", "swap_remove", "split_off", "retain") and \
                    not nm.endswith("::into"):
                ctx.ob("no-loss:" + nm, False, "stored values are never dropped: " + x.path, f, x.line)
            if x.kind == "call" and x.path.split("::")[-1] in ("resize_with", "resize") and not nm.endswith(("into_vec_with_size", "::into")):
                ctx.ob("grow-only:" + nm, grows(x), "padding only ever extends: resize to %s if %s" % (show(x.args[1]), showc(x.cond)), f, x.line)
    ctx.ob("unchecked-sites", n_un >= 4, "%d unchecked accesses are analysed" % n_un)
    for ty in (r"^VecMultiMap<", r"^VecMultiMapAdapter<"):
        short = ty.strip("^<")
        for n in ("get", "get_mut", "push_to", "get_or_fail"):
            f = ctx.method(ty, None, n)
            if not f:
                continue
            e = ctx.view(f)
            i = mk("arg", 2, f["locals"][2]["name"] or "")
            if n == "push_to":
                val = mk("arg", 3, f["locals"][3]["name"] or "")
                ps = [x for x in e.events if x.kind == "call" and x.path.endswith("Vec::push") and not
                      (is_call(x.args[1], "new", "default", "with_capacity") and all(v.op != "idx" for _, v in alts(x.args[0])))]
                good = len(ps) >= 1 and all(x.args[1] is val and all(v.op == "idx" and v.a[1] is i for _, v in alts(x.args[0])) for x in ps) and \
                    simp(frozenset((p, v) for p, v in k if not (p.op == "lt" and p.a[0] is i and v)) for x in ps for k in x.cond) == TRUE
                ctx.ob("%s:push_to" % short, good, "the value is appended to the list at the given index", f)
                for x in ps:
                    for c, v in alts(x.args[0]):
                        for k in (c_and(c, x.cond) or [frozenset()]):
                            ctx.ob("%s:push-bounds" % short, in_bounds(v.a[0], i, k), "the list at the index exists when it is appended to", f)
            else:
                for k, v in paths(e):
                    if n == "get_or_fail":
                        if is_none(v):
                            ctx.ob("%s:%s-none" % (short, n), any(p.op == "lt" and p.a[0] is i and not val for p, val in k), "only an absent list is reported absent", f)
                            continue
                        v = payload(v) if is_some(v) else v
                    ctx.ob("%s:%s" % (short, n), v.op == "idx" and v.a[1] is i, "the list at the given index is returned: " + show(v), f)
    f = ctx.method(r"^VecMultiMap<", None, "into_vec_with_size")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("into_vec_with_size", v.op == "eff" and is_call(v.a[0], "resize_with", "resize") and v.a[0].a[1][1].op == "arg" and
                   path_of(v.a[0].a[1][0])[0].op == "arg", "conversion with a size yields exactly that many lists", f)
    f = ctx.method(r"^VecMultiMap<", r"Into<", "into")
    if f:
        e = ctx.view(f)
        S = fld(arg(f, 1), "0")
        for k, v in paths(e):
            ctx.ob("into:size", cut(e, S, k, v), "conversion cuts directly behind the last non-empty list: %s if %s" % (show(v), showc(frozenset([k]))), f)
    # reading by index
    f = ctx.method(r"^VecMultiMapAdapter<", r"Index<", "index")
    if f:
        i = mk("arg", 2, f["locals"][2]["name"] or "")
        for k, v in paths(ctx.view(f)):
            ctx.ob("index", v is idx(field(mk("arg", 1, "self"), "0"), i), "indexing yields the list at the index", f)


def cut(e, S, k, v):
    """is v the list S without the empty lists at its end"""
    P = OP("revp", I("p"))
    none = [ALL(EQ(LEN(IX(S, ALT(P, I("p")))), const(0)), [MORE(S, ALT(P, I("p")))])]
    nil = [(EQ(LEN(S), const(0)), True)]
    last = [(EQ(LEN(IX(S, P)), const(0)), False), MORE(S, P)]
    best = CALL("Iterator::max", COLL(PLUS(I("p"), 1), [MORE(S, I("p")), (EQ(LEN(IX(S, I("p"))), const(0)), False)]))

    def size(n, k):
        if cval(n) == 0:
            return first_conj(none, [], k, rest=True) is not None or first_conj(nil, [], k, rest=True) is not None or \
                first_conj([(IS(best, "Some"), False)], [], k) is not None
        if n.op == "add" and len(n.a[0]) == 2 and const(1) in n.a[0]:
            r = [x for x in n.a[0] if x is not const(1)][0]
            m = first(P, r)
            return m is not None and first_conj(last, [], k, m, rest=True) is not None
        if first(F(best, "Some:0"), n) is not None:
            return True
        if n.op == "loop":      # counted down
            L = e.loops[n]
            dec = sub(n, const(1))
            empty = eq(length(idx(S, dec)), const(0))
            return L["init"] is length(S) and all(b is dec for b in L["back"]) and \
                any((empty, False) in kk or (eq(n, const(0)), True) in kk or (lt(const(0), n), False) in kk for kk in (k,)) and \
                all((empty, True) in kk for c in L["backc"] for kk in c)
        return False
    if is_empty_vec(v):
        return size(const(0), k)
    if v.op == "eff" and v.a[1] == 0 and is_call(v.a[0], "resize_with", "resize", "truncate") and v.a[0].a[1][0] is S:
        return all(size(n, kk) for c, n in alts(v.a[0].a[1][1]) for kk in c_and(c, frozenset([k])))
    if v.op == "loop" and v in e.loops and e.loops[v]["init"] is S:      # removed one by one
        L = e.loops[v]
        lastl = eq(length(idx(v, sub(length(v), const(1)))), const(0))
        return all(b.op == "eff" and b.a[1] == 0 and is_call(b.a[0], "Vec::pop") and b.a[0].a[1][0] is v for b in L["back"]) and \
            all((lastl, True) in kk for c in L["backc"] for kk in c) and ((lastl, False) in k or empty_lit_of(k, v))
    return False


def empty_lit_of(k, v):
    return any(empty_lit(p, x, lambda y: y is v) for p, x in k)


def is_empty_vec(v):
    return v.op == "call" and v.a[0].split("::")[-1] in ("new", "default") or v.op == "array" and not v.a


def grows(x):
    n = x.args[1]
    v = x.args[0]
    for k in x.cond:
        good = False
        for p, val in k:
            if p.op == "lt" and not val and p.a[1] is length(v):
                i = p.a[0]
                if n is i or n is add(i, const(1)) or (n.op == "add" and i in n.a[0]):
                    good = True
        if n.op == "max" and length(v) in n.a:
            good = True
        if not good:
            return False
    return True


def in_bounds(v, i, k):
    if (lt(i, length(v)), True) in k:
        return True
    if v.op == "phi":
        return all(in_bounds(x, i, frozenset(kk | k)) for c, x in v.a[0] for kk in c if compatible(kk, k))
    if v.op == "eff" and is_call(v.a[0], "resize_with", "resize"):
        n = v.a[0].a[1][1]
        if n.op == "add" and i in n.a[0] and any(_int_pos(y) for y in n.a[0]):
            return True
        if n.op == "max" and any(y.op == "add" and i in y.a[0] and any(_int_pos(z) for z in y.a[0]) for y in n.a):
            return True
    return False


def _int_pos(t):
    return is_const(t) and isinstance(cval(t), int) and cval(t) >= 1


# ---------------------------------------------------------------- R01
def r01(ctx):
    ty = r"^util::reverse::Reverse<W"
    A = lambda f, i: mk("arg", i, f["locals"][i]["name"] or "")
    W = lambda t: field(t, "0")
    for tr, n, op in ((r"PartialOrd", "partial_cmp", "pcmp"), (r"cmp::Ord", "cmp", "cmp")):
        f = ctx.method(ty, tr, n)
        if f:
            a, b = W(A(f, 1)), W(A(f, 2))
            bad = None
            try:
                for o in (-1, 0, 1) + ((None,) if op == "pcmp" else ()):
                    def outcome(x, y):
                        if (x, y) == (a, b):
                            return o
                        if (x, y) == (b, a):
                            return None if o is None else -o
                        raise Unknown(show(x) + " : " + show(y))
                    got = [cmp_value(v, outcome) for k, v in paths(ctx.view(f)) if cmp_cond(frozenset([k]), outcome)]
                    want = None if o is None else -o
                    if not got or any(g != want for g in got):
                        bad = "for inner values that are %s" % {-1: "less", 0: "equal", 1: "greater", None: "incomparable"}[o]
            except Unknown as u:
                bad = str(u)
            ctx.ob(n, bad is None, "the order is exactly the reversed order of the inner values" + (": wrong " + bad if bad else ""), f)
    over = [f for f in ctx.p.fns.values() if f.get("self_ty", "").startswith("util::reverse::Reverse<") and not f.get("derived")
            and f["kind"] != "closure" and f["nname"].split("::")[-1] in ("lt", "le", "gt", "ge", "max", "min", "clamp")]
    for f in over:
        n = f["nname"].split("::")[-1]
        a, b = arg(f, 1), arg(f, 2)
        x, y = field(a, "0"), field(b, "0")
        want = {"lt": (lt(y, x), True), "gt": (lt(x, y), True), "le": (lt(x, y), False), "ge": (lt(y, x), False)}.get(n)
        yes, no = bools(ctx.view(f))
        good = want is not None and bool(yes) and bool(no) and all(want in k for k in yes) and all((want[0], not want[1]) in k for k in no)
        ctx.ob("override:" + n, good, "a comparison that is written separately agrees with the reversed order: " + showc(yes), f)
    for op in ("Add", "Sub", "Mul", "Div", "Rem"):
        f = ctx.method(ty, r"ops::%s$|ops::%s<|ops::%s>$" % (op, op, op), op.lower())
        if f:
            a, b = W(A(f, 1)), W(A(f, 2))
            for k, v in paths(ctx.view(f)):
                x = field(v, "0") if is_adt(v, "Reverse") else None
                good = x is not None and (is_call(x, op + "::" + op.lower()) and x.a[1] == (a, b) or x.op in ("add", "sub", "mul") and x.op == op.lower())
                ctx.ob(op, good, "%s applies to the inner values in order: %s" % (op, show(v)), f)
        f = ctx.method(ty, r"ops::%sAssign" % op, op.lower() + "_assign")
        if f:
            e = ctx.view(f)
            b = W(A(f, 2))
            fin = e.final_value(A(f, 1), "0")
            x = fin.a[0] if fin.op == "eff" else None
            good = x is not None and x.a[0].endswith("%sAssign::%s_assign" % (op, op.lower())) and x.a[1] == (W(A(f, 1)), b)
            ctx.ob(op + "Assign", good, "%s-assignment applies to the inner values: %s" % (op, show(fin)), f)
    for tr, n in ((r"Zero", "zero"), (r"One", "one")):
        f = ctx.method(ty, tr, n)
        if f:
            for k, v in paths(ctx.view(f)):
                ctx.ob(n, is_adt(v, "Reverse") and is_call(field(v, "0"), tr + "::" + n), "%s is the inner %s: %s" % (n, n, show(v)), f)
    f = ctx.method(ty, r"Zero", "is_zero")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("is_zero", is_call(v, "Zero::is_zero") and v.a[1][0] is W(A(f, 1)), "zero is recognised by the inner value", f)
    f = ctx.method(ty, r"Display", "fmt")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("display", has(v, lambda x: x is W(A(f, 1))), "the inner value is printed: " + show(v), f)
    f = ctx.method(ty, r"FromStr", "from_str")
    if f:
        e = ctx.view(f)
        pc = [x for x in e.events if x.kind == "call" and x.path.endswith("FromStr::from_str")]
        for k, v in paths(e):
            if is_ok(v):
                x = payload(v)
                ctx.ob("parse", is_adt(x, "Reverse") and any(field(x, "0") is field(c.ret, "0", "Ok") and c.args[0] is A(f, 1) for c in pc),
                       "parsing parses the inner value: " + show(v), f)
            elif is_err(v):
                x = payload(v)
                x = x.a[1][0] if is_call(x, "From::from", "Into::into") else x
                ctx.ob("parse-err", any(x is field(c.ret, "0", "Err") for c in pc), "a parse error of the inner value is passed on: " + show(v), f)
    f = ctx.method(ty, None, "unwrap")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("unwrap", v is W(A(f, 1)), "unwrap returns the inner value", f)
    f = ctx.method(ty, None, "inner")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("inner", v is W(A(f, 1)), "inner returns the inner value", f)
    f = ctx.method(ty, r"From<W>", "from")
    if f:
        for k, v in paths(ctx.view(f)):
            ctx.ob("from", is_adt(v, "Reverse") and field(v, "0") is A(f, 1), "conversion wraps the value", f)
    f = ctx.method(ty, r"Factorizable", "factorize")
    if f:
        for k, v in paths(ctx.view(f)):
            C = CALL("Factorizable::factorize", W(A(f, 1)), A(f, 2))
            ctx.ob("factorize", first(COLL(ADT("Reverse", _0=IX(C, I("i"))), [MORE(C, I("i"))]), v) is not None and
                   not any(p.op == "more" and x for p, x in k), "factors are the inner factors: " + show(v), f)
    if ctx.prop:
        eqs = [i for i in ctx.p.impls if i["self"].startswith("util::reverse::Reverse<") and (i["trait"] or "").endswith("cmp::PartialEq")]
        ctx.ob("eq", len(eqs) == 1 and eqs[0]["derived"] or bool(ctx.method(ty, "PartialEq", "eq", quiet=True)), "equality is equality of the inner values")


# ---------------------------------------------------------------- R02
def poly_mul(a, b):
    out = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def poly_add(a, b):
    m = max(len(a), len(b))
    out = [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(m)]
    while len(out) > 1 and out[-1] == 0:
        out.pop()
    return out


def number(t, n):
    """a floating point expression over n as a quotient of polynomials in n (numerator, denominator); None where it is none"""
    if t is n:
        return [0, 1], [1]
    if is_const(t) and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool):
        return [Fraction(cval(t))], [1]
    if is_const(t) and isinstance(cval(t), str):
        try:
            return [Fraction(cval(t))], [1]
        except ValueError:
            return None
    if t.op == "castf":
        i = t.a[0]
        return number(i, n) if i is n or is_const(i) or i.op in ("add", "cast") else ([0], [1]) if i.op == "bin" and i.a[0] == "Div" else None
    if t.op == "cast":
        # a list cannot have as many elements as the wider integers lose
        return ([0], [1]) if t.a[2] in ("u8", "i8", "u16", "i16") else number(t.a[0], n)
    if t.op == "call":
        nm = t.a[0].split("::")[-1]
        ks = [number(x, n) for x in t.a[1]]
        if not ks or ks[0] is None:
            return None
        if nm == "recip" and len(ks) == 1:
            return ks[0][1], ks[0][0]
        if nm in ("powi", "powf") and len(ks) == 2 and is_const(t.a[1][1]) and float(cval(t.a[1][1])) == -1.0:
            return ks[0][1], ks[0][0]
        if nm in ("from", "into") and len(ks) == 1:
            return ks[0]
        return None
    if t.op == "add" and len(t.a) == 1 and isinstance(t.a[0], tuple):
        out = [0], [1]
        for x in t.a[0]:
            k = ([Fraction(x)], [1]) if isinstance(x, int) else number(x, n)
            if k is None:
                return None
            out = poly_add(poly_mul(out[0], k[1]), poly_mul(k[0], out[1])), poly_mul(out[1], k[1])
        return out
    if t.op == "bin" and len(t.a) == 3 or t.op in ("add", "sub", "mul") and len(t.a) == 2:
        o, x, y = (t.a[0], t.a[1], t.a[2]) if t.op == "bin" else (t.op.capitalize(), t.a[0], t.a[1])
        l, r = number(x, n), number(y, n)
        if l is None or r is None:
            return None
        if o == "Div":
            l, r, o = l, (r[1], r[0]), "Mul"
        if o == "Mul":
            return poly_mul(l[0], r[0]), poly_mul(l[1], r[1])
        if o in ("Add", "Sub"):
            g = r[0] if o == "Add" else [-z for z in r[0]]
            return poly_add(poly_mul(l[0], r[1]), poly_mul(g, l[1])), poly_mul(l[1], r[1])
    return None


def is_inverse(q, fix):
    """whether the quotient is 1/n (for n = fix if that is given)"""
    a, b = q
    if fix:
        at = lambda z: sum(c * fix ** i for i, c in enumerate(z))
        return at(b) != 0 and at(a) * fix == at(b)
    return poly_add(poly_mul(a, [0, 1]), [-z for z in b]) == [0] and any(b)


def fixed_n(k, n):
    """the number of factors, where a path fixes it"""
    for p, b in k:
        if p.op == "eq" and b and n in p.a:
            o = p.a[0] if p.a[1] is n else p.a[1]
            if is_const(o) and isinstance(cval(o), int):
                return cval(o)
    return None


def copies(v, n, fix):
    """(element, number of copies is n) of a list of copies; None where the form is not known"""
    if is_call(v, "from_elem"):
        return v.a[1][0], v.a[1][1] is n or fix is not None and is_const(v.a[1][1]) and cval(v.a[1][1]) == fix
    if v.op == "eff" and is_call(v.a[0], "Vec::resize") and is_call(v.a[0].a[1][0], "Vec::new", "Vec::with_capacity"):
        return v.a[0].a[1][2], v.a[0].a[1][1] is n
    if is_call(v, "Vec::new", "Vec::with_capacity") or v is NONE:
        return None, fix == 0
    if v.op == "array" or v.op == "call" and v.a[0].endswith("into_vec"):
        xs = v.a
        return (xs[0] if xs and all(x is xs[0] for x in xs) else None), fix is not None and len(xs) == fix and all(x is xs[0] for x in xs)
    if v.op == "coll":
        cs = list(v.a[1])
        if len(cs) != 1:
            return None
        c = list(cs[0])
        if len(c) == 1 and not c[0][1] and c[0][0].op == "lt" and c[0][0].a[0] is n:
            return v.a[0], False
        if any(p.op == "more" and p.a[0].op == "itd" and p.a[0].a[0] == "once" for p, b in c):
            return v.a[0], False
        if len(c) == 1 and c[0][1] and c[0][0].op == "lt" and (c[0][0].a[0].op.startswith("pos") or c[0][0].a[0].op == "len"):
            p = c[0][0]
            o = number(p.a[1], n)
            return (v.a[0], p.a[1] is n) if o is not None or has(p.a[1], lambda x: x is n) else None
    return None


def r02(ctx):
    for ty, unit in ((r"LogDomain<f64>$", False), (r"^\(\)$", True)):
        f = ctx.method(ty, r"Factorizable", "factorize")
        if not f:
            continue
        w, n = arg(f, 1), arg(f, 2)
        key = "unit" if unit else "root"
        e = ctx.view(f)
        for k, v in paths(e):
            fix = fixed_n(k, n)
            i0 = e.rw(e.loops[v]["init"]) if v.op == "loop" and v in e.loops and e.loops[v]["init"] is not None else UNIT
            if i0.op == "array" and w in i0.a:
                ctx.ob(key, False, "all factors are the n-th root of the weight, none is the weight itself: " + show(i0), f)
                continue
            if any(p.op == "lt" and not b and is_const(p.a[0]) and cval(p.a[0]) == 0 and p.a[1] is n for p, b in k):
                fix = 0
            got = copies(v, n, fix)
            if got is None:
                ctx.undecided(key, "the list of factors has a form that is not known: " + show(v), f)
                continue
            el, many = got
            ctx.ob(key + ":number", many, "there are n factors: " + show(v), f)
            if el is None or unit:
                continue
            if fix == 1 and el is w:
                ctx.ob(key, True, "a single factor is the weight", f)
            elif is_call(el, "LogDomain::pow", "Pow::pow") and el.a[1][0] is w:
                q = number(el.a[1][1], n)
                if q is None:
                    if any(x.op == "phi" for x in walk(el.a[1][1])) or not has(el.a[1][1], lambda x: x is n) :
                        ctx.ob(key, False, "each factor is the n-th root of the weight, for every n: " + show(el), f)
                    else:
                        ctx.undecided(key, "exponent of a form that is not known: " + show(el), f)
                else:
                    ctx.ob(key, is_inverse(q, fix), "each factor is the n-th root of the weight: " + show(el), f)
            elif el is w or is_const(el) or is_call(el, "One::one", "Zero::zero"):
                ctx.ob(key, False, "each factor is the n-th root of the weight: " + show(el), f)
            else:
                ctx.undecided(key, "factor of a form that is not known: " + show(el), f)
    f = ctx.method(r"^util::reverse::Reverse<W", r"Factorizable", "factorize")
    if f:
        C = CALL("Factorizable::factorize", W0(f), arg(f, 2))
        for k, v in paths(ctx.view(f)):
            ctx.ob("reverse", first(COLL(ADT("Reverse", _0=IX(C, I("i"))), [MORE(C, I("i"))]), v) is not None and
                   not any(p.op == "more" and x for p, x in k), "the factors of a reversed weight are the reversed factors: " + show(v), f)


def W0(f):
    return field(arg(f, 1), "0")


def key_of(p):
    """the key a container is asked for"""
    c = p.a[0] if p.op == "is" else p
    return c.a[1][1] if c.op == "call" and len(c.a[1]) >= 2 else UNIT


# ---------------------------------------------------------------- P01
def p01(ctx):
    f = ctx.method(r"^util::partition::Partition<", None, "new")
    if f:
        e = ctx.view(f)
        cells = arg(f, 1)
        C = IX(cells, I("c"))
        X = IX(C, I("s"))
        intro = [MORE(cells, I("c")), MORE(C, I("s"))]
        ins = [x for x in e.events if x.kind == "call" and x.path.split("::")[-1] == "insert" and "Map" in x.path]
        ctx.ob("new:records", len(ins) >= 1, "every symbol of a cell is recorded", f)
        for x in ins:
            m = first(TUP(X, C), mk("tuple", *x.args[1:]))
            ctx.ob("new:cell", m is not None, "a symbol is recorded with the cell it is an element of: %s ↦ %s" % (show(x.args[1]), show(x.args[2])), f)
            if m is None:
                continue
            for k in x.cond:
                k2 = frozenset((p, v) for p, v in k if fresh(p, v, x.args[1]) is not True and not (p.op == "all" and v))
                ctx.ob("new:all", first_conj(intro, [], k2, m) is not None, "no symbol is left out: " + showc(frozenset([k])), f)
        n_rej = 0
        for k, v in paths(e):
            if is_none(v):
                for k1 in expand1(k):
                    hit = [(p, x) for p, x in k1 if fresh(p, x) is False]
                    good = any(first_conj(intro, [DONE], k1 - {h}, first(X, key_of(h[0])) or {"c": UNIT}) is not None for h in hit)
                    ctx.ob("new:rejects", good, "a list of cells is rejected iff a symbol occurs twice: " + showc(frozenset([k1])), f)
                    n_rej += good
            elif is_some(v):
                ctx.ob("new:accepts", not any(fresh(p, x) is False for p, x in k) and not any(p.op == "more" and x for p, x in k),
                       "a partition is complete only after all cells were added: " + showc(frozenset([k])), f)
                m = payload(v)
                pairs = field(m, "0") if is_adt(m, "Partition") else m
                ok_ = first(COLL(TUP(X, C), intro, opt=[(OP("all", ANY, ANY), True)], kinds=("BTreeMap", "first:BTreeMap", "HashMap", "first:HashMap")), pairs) is not None
                ctx.ob("new:map", ok_, "the partition holds each symbol with its cell: " + show(m), f)
        ctx.ob("new:checked", n_rej >= 1, "a symbol recorded before is noticed", f)
    g = ctx.method(r"^util::partition::Partition<", None, "get_cell")
    if g:
        e = ctx.view(g)
        gets = [x for x in e.events if x.kind == "call" and x.path.endswith("BTreeMap::get")]
        ctx.ob("get_cell:lookup", len(gets) == 1 and gets[0].args[1].op == "arg" and gets[0].args[1].a[0] == 2, "the cell is looked up by the symbol", g)
        for k, v in paths(e):
            if is_some(v):
                ctx.ob("get_cell:some", payload(v) is field(gets[0].ret, "0", "Some") if gets else False, "the cell found is returned", g)
            elif is_none(v):
                ctx.ob("get_cell:none", bool(gets) and (mk("is", gets[0].ret, "Some"), False) in k, "only unknown symbols have no cell", g)
            else:
                ctx.ob("get_cell:value", gets and v is gets[0].ret, "the cell found is returned", g)
    c = ctx.method(r"^util::partition::Partition<", None, "collapse")
    if c:
        e = ctx.view(c)
        M = fld(arg(c, 1), "0")
        key, cell = F(IX(M, I("i")), "0"), F(IX(M, I("i")), "1")
        marked = COLL(IX(cell, I("s")), [MORE(M, I("i")), MORE(cell, I("s")), (CALL("contains", ANY, key), False)], kinds=SETS)
        marked2 = COLL(IX(cell, I("s")), [MORE(M, I("i")), MORE(cell, I("s"))], kinds=SETS)
        once = [MORE(M, I("i")), (CALL("contains", ALT(marked, marked2), key), False)]
        least = [MORE(M, I("i")), EQ(key, IX(cell, const(0)))]
        for k, v in paths(e):
            good = first(COLL(cell, once, opt=[DONE]), v) is not None or \
                first(COLL(cell, least, opt=[(EQ(LEN(cell), const(0)), False)]), v) is not None
            ctx.ob("collapse", good, "every cell is listed once: " + show(v), c)
            ctx.ob("collapse:all", not any(p.op == "more" and x for p, x in k), "the list is complete only after all symbols were looked at: " + showc(frozenset([k])), c)
    s = ctx.method(r"^util::partition::Partition<", r"Serialize", "serialize")
    if s:
        e = ctx.view(s)
        col = ctx.p.find(r"util::partition::Partition::collapse$")
        out = [x for x in e.events if x.kind == "call" and x.path.endswith("Serialize::serialize")]
        good = any(x.args[0].op in ("loop", "eff", "coll", "call") for x in out)
        if c:
            for x in out:
                w = x.args[0]
                if w.op == "coll":
                    ctx.ob("serialize:cells", first(COLL(cell, once, opt=[DONE]), w) is not None or first(COLL(cell, least, opt=[(EQ(LEN(cell), const(0)), False)]), w) is not None,
                           "all cells are written: " + show(w), s)
                else:
                    ctx.ob("serialize:cells", w.op != "eff", "all cells are written: " + show(w), s)
        ctx.ob("serialize", good and col and col[0]["id"] in e.inlined, "a partition is written as the list of its cells", s)
    d = ctx.method(r"^util::partition::Partition<", r"Deserialize", "deserialize")
    if d:
        e = ctx.view(d)
        new = ctx.p.find(r"util::partition::Partition::new$")
        ctx.ob("deserialize:checked", bool(new) and new[0]["id"] in e.inlined, "reading goes through the checked constructor", d)
        for x in e.events:
            if x.kind == "enter" and new and x.path == new[0]["nname"] or x.kind == "enter" and x.path.endswith("partition::Partition::new"):
                whole = first(F(CALL("deserialize", ANY), "Ok:0"), x.args[0])
                ctx.ob("deserialize:cells", whole is not None or x.args[0].op not in ("eff", "coll", "call"), "all cells that are read are checked: " + show(x.args[0]), d)
        pan = [x for x in e.events if x.kind == "panic"]
        ctx.ob("deserialize:no-abort", not pan, "overlapping cells in the input are an error, not an abort: " +
               "; ".join("%s in %s" % (x.path, x.fn) for x in pan), d, pan[0].line if pan else None)
        for k, v in paths(e):
            if is_ok(v):
                ctx.ob("deserialize:value", is_adt(payload(v), "Partition") or payload(v).op in ("f", "call", "phi"), "what is read is a partition", d)
