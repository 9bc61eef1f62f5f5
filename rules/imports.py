"""Rules about reading: imported treebank grammars and the text formats."""
from base import *
from pat import *
from grammar import DONE, LISTS, comp_of, after_all, exact, list_of, lookup
from derivations import lists_over, empty_list


class NoValue(Exception):
    pass


def bits(t, env):
    """the value of an arithmetic term"""
    if t in env:
        return env[t]
    if t.op == "c":
        return int(t.a[1])
    if t.op == "add":
        return sum(bits(x, env) for x in t.a[0])
    if t.op in ("and", "bitand"):
        xs = [bits(x, env) for x in t.a]
        return xs[0] & xs[1]
    if t.op in ("shl", "shr", "rem", "div", "sub", "mul", "or", "xor"):
        xs = [y for x in t.a for y in (x if isinstance(x, tuple) else (x,))]
        a, b = (bits(x, env) for x in xs)
        return {"shl": lambda: a << b, "shr": lambda: a >> b, "rem": lambda: a % b, "div": lambda: a // b, "sub": lambda: a - b, "mul": lambda: a * b, "or": lambda: a | b,
                "xor": lambda: a ^ b}[t.op]()
    if t.op == "bin":
        op, x, y = t.a[0], bits(t.a[1], env), bits(t.a[2], env)
        op = str(op).replace("Unchecked", "").replace("WithOverflow", "")
        fs = {"Shl": lambda: x << y, "Shr": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Rem": lambda: x % y, "Div": lambda: x // y,
              "Sub": lambda: x - y, "Add": lambda: x + y, "Mul": lambda: x * y}
        if op not in fs:
            raise NoValue(show(t))
        return fs[op]()
    if t.op == "cast":
        return bits(t.a[0], env) & {"u8": 0xff, "u16": 0xffff, "u32": 0xffffffff, "i32": 0xffffffff}.get(t.a[2], -1)
    if is_call(t, "From::from", "Into::into", "Into::into") and len(t.a[1]) == 1:
        return bits(t.a[1][0], env)
    if t.op in ("conv", "un") and len([x for x in t.a if isinstance(x, T)]) == 1:
        return bits([x for x in t.a if isinstance(x, T)][0], env)
    if t.op == "eq":
        return int(bits(t.a[0], env) == bits(t.a[1], env))
    if t.op == "lt":
        return int(bits(t.a[0], env) < bits(t.a[1], env))
    if t.op == "not":
        return int(not bits(t.a[0], env))
    if is_call(t, "pow"):
        a, b = (bits(x, env) for x in t.a[1][:2])
        return a ** b
    raise NoValue(show(t))


def bit_test(p, i, m):
    """does the literal say that bit i of m is set (True), or not set (False); None if it says something else"""
    try:
        vs = [(bool(bits(p, {i: a, m: b})), bool(b >> a & 1)) for b in list(range(32)) + [1 << 40, 1 << 63, (1 << 40) - 1, 0xaaaaaaaaaaaaaaaa] for a in (0, 1, 2, 3, 4, 40, 63)]
    except (NoValue, ZeroDivisionError, ValueError):
        return None
    if all(x == y for x, y in vs):
        return True
    if all(x != y for x, y in vs):
        return False
    raise NoValue("another bit: " + show(p))


def affine(x):
    """offset and core of a sum"""
    off = 0
    while x.op in ("add", "sub"):
        if x.op == "sub" and len(x.a) == 2 and x.a[1].op == "c":
            off -= int(x.a[1].a[1])
            x = x.a[0]
            continue
        xs = list(x.a[0]) if x.op == "add" else []
        rest = [y for y in xs if y.op != "c"]
        if len(rest) != 1:
            break
        off += sum(int(y.a[1]) for y in xs if y.op == "c")
        x = rest[0]
    return off, x


def pushed(t):
    """the elements of a list built by pushing onto an empty list"""
    xs = []
    while t.op == "eff" and t.a[1] == 0 and is_call(t.a[0], "push") and len(t.a[0].a[1]) == 2:
        xs.insert(0, t.a[0].a[1][1])
        t = t.a[0].a[1][0]
    return xs if empty_list(t) or is_call(t, "with_capacity") else None


def composition_value(t):
    """the list of components of a Composition"""
    if is_adt(t, "Composition"):
        return field(t, "composition")
    if is_call(t, "into", "from") and len(t.a[1]) == 1:
        return t.a[1][0]
    return t


def numbered(ctx, key, f, view, comp, Y, opt, which):
    """the components of a rule made from a yield function: each entry is the next component of the first or the second successor.
    which(literal, env) tells whether a literal says that an entry belongs to the second successor"""
    cs = cases(comp)
    ctx.ob(key + ":components", lists_over(comp) and len(cs) == 1, "the rule has one component for each component of the yield function: " + show(comp, 4), f)
    for el, c in cs:
        e = exact(ctx, key + ":every-component", f, "every component of the yield function is used", c, [MORE(Y, I("c"))], list(opt) + [(LT(ANY, ANY), False)])
        if e is None:
            continue
        ctx.ob(key + ":symbols", lists_over(el), "a component is the list of its variables, in order: " + show(el, 4), f)
        seen = {}
        flat = []
        for s, c2 in cases(el):
            if is_adt(s, "VarT", "Var"):
                for a1, n1 in alts(field(s, "0", "Var")):
                    for a2, n2 in alts(field(s, "1", "Var")):
                        for k in c_and(c_and(frozenset([c2]), a1), a2):
                            flat.append((n1, n2, k))
            else:
                ctx.ob(key + ":variable", False, "an entry of the yield function becomes a variable: " + show(s), f)
        for n1, n2, k in flat:
            second = None
            left = set()
            for p, v in k:
                w = which(p, e)
                if w is None:
                    left.add((p, v))
                else:
                    second = w == v
            ctx.ob(key + ":entry", second is not None and not any(first(ALT(MORE(ANY, ANY), LT(ANY, ANY)), p) is None for p, v in left),
                   "every entry of a component becomes a variable: " + showc(frozenset([k])), f)
            if second is None:
                continue
            seen[second] = n1
            off, n2 = affine(n2)
            if off:
                ctx.ob(key + ":number", False, "the variables of a successor are numbered from 0", f)
            good = is_call(n2, "count") and n2.a[1][0].op == "coll"
            if not good:
                b = begins(view, n2)
                if b is not None and b is not const(0):
                    ctx.ob(key + ":number", False, "the first variable of a successor in a component goes on behind the last one of the components before; here it is " + show(b, 5), f)
                    continue
                ctx.undecided(key + ":number", show(n2, 4), f) if any(x.op in ("loop", "phi") for x in walk(n2)) else \
                    ctx.ob(key + ":number", False, "the variables of a successor are numbered consecutively over all components: " + show(n2, 5), f)
                continue
            for k2 in n2.a[1][0].a[1]:
                side = None
                rest = []
                for p, v in k2:
                    w = which(p, e)
                    if w is None:
                        rest.append((p, v))
                    else:
                        side = w == v
                ok_ = side == second and any(v and first(MORE(Y, I("c")), p, e) for p, v in rest) and len(rest) == 2
                ctx.ob(key + ":number", ok_, "the variables of a successor are numbered consecutively over all components of the rule, counted for this successor only: " +
                       showc(frozenset([k2])), f)
        ctx.ob(key + ":sides", seen.get(True) is const(1) and seen.get(False) is const(0), "an entry is a variable of the first or of the second successor: %s" %
               {k: show(v) for k, v in seen.items()}, f)


def begins(v, x):
    """the first value of a number that is counted in loops; None if it is none"""
    for _ in range(5):
        L = v.loops.get(x) if x.op == "loop" else None
        if L is None:
            return x if _ else None
        if L["init"] is None:
            return None
        x = L["init"]
    return None


def tails(t):
    for c, x in alts(t):
        p = pushed(x)
        yield c, p if p is not None else list_of(x)


def start(ctx, key, f, t, name):
    lits = [x for x in walk(t) if x.op == "c" and x.a[0] == "str"]
    ctx.ob(key, [str(x.a[1]) for x in lits] == [name], "the initial nonterminal is %s: %s" % (name, show(t)), f)


def k01(ctx):
    # ---------------------------------------------------------------- rparse
    for f in ctx.methods(r"from_rparse::RparseClauses", r"Into<.*Lcfrs", "into") + ctx.methods(r"lcfrs::Lcfrs", r"From<.*RparseClauses", "from"):
        v = ctx.view(f)
        cl = F(mk("arg", 1, f["locals"][1]["name"] or ""), "0")
        R = IX(cl, I("r"))
        for k, r in paths(v):
            ctx.ob("rparse", is_adt(r, "Lcfrs") and after_all(k), "all clauses are converted", f)
            if not is_adt(r, "Lcfrs"):
                continue
            start(ctx, "rparse:initial", f, field(r, "init"), "VROOT1")
            rs = field(r, "rules")
            ctx.ob("rparse:rules", lists_over(rs), "the rules are a list: " + show(rs, 3), f)
            kinds = set()
            for el, c in cases(rs):
                ok_ = is_adt(el, "PMCFGRule")
                ctx.ob("rparse:rule", ok_, "each clause becomes a rule", f)
                if not ok_:
                    continue
                own = frozenset((p, x) for p, x in c if not (p.op == "is" and p.a[1] in ("Chain", "Binary")))
                e = exact(ctx, "rparse:every", f, "every clause becomes a rule", own, [MORE(cl, I("r"))])
                if e is None:
                    continue
                ctx.ob("rparse:head", first(F(R, "1"), field(el, "head"), e) is not None and first(F(R, "0"), field(el, "weight"), e) is not None,
                       "left-hand side and weight are those of the clause: %s, %s" % (show(field(el, "head")), show(field(el, "weight"))), f)
                for c2, xs in tails(field(el, "tail")):
                    for k2 in c_and(frozenset([c]), c2):
                        var = [p.a[1] if v_ else {"Chain": "Binary", "Binary": "Chain"}[p.a[1]] for p, v_ in k2 if p.op == "is" and p.a[1] in ("Chain", "Binary")]
                        kinds |= set(var)
                        want = {"Chain": [F(R, "2", "Chain:0")], "Binary": [F(R, "2", "Binary:0"), F(R, "2", "Binary:1")]}.get(var[0] if var else "", None)
                        ok_ = want is not None and xs is not None and len(want) == len(xs) and all(first(w, x, e) for w, x in zip(want, xs))
                        ctx.ob("rparse:tail", ok_, "the successors are those of the clause, in order: " + show(field(el, "tail"), 4), f)
                Y = F(R, "3")
                X = IX(IX(Y, I("c")), I("e"))
                numbered(ctx, "rparse", f, v, composition_value(field(el, "composition")), Y, [MORE(cl, I("r"))], lambda p, e: True if first(X, p, e) else None)
            ctx.ob("rparse:kinds", kinds == {"Chain", "Binary"}, "clauses with one and with two successors are converted", f)
    # ---------------------------------------------------------------- disco-dop
    f = ctx.method(r"lcfrs::Lcfrs", r"From<.*DiscoDopGrammar", "from")
    if f:
        v = ctx.view(f)
        g = mk("arg", 1, f["locals"][1]["name"] or "")
        CS = F(g, "constituents", "0")
        R = IX(CS, I("r"))
        lx = F(g, "lexer")
        LX = ALT(F(IX(lx, I("o")), "0"), F(lx, "Some:0", "0"), F(F(lx, "Some:0"), "0"))
        L = IX(LX, I("w"))
        d = F(R, "0")
        lhs = ALT(F(d, "Chain:lhs"), F(d, "Binary:lhs"))
        den = []
        kinds = set()
        for k, r in paths(v):
            ctx.ob("disco", is_adt(r, "Lcfrs") and after_all(k), "all constituents and words are converted", f)
            if not is_adt(r, "Lcfrs"):
                continue
            start(ctx, "disco:initial", f, field(r, "init"), "ROOT")
            for el, c in cases(field(r, "rules")):
                ok_ = is_adt(el, "PMCFGRule")
                ctx.ob("disco:rule", ok_, "each constituent and each word becomes a rule", f)
                if not ok_:
                    continue
                wt = field(el, "weight")
                ok_ = wt.op == "eff" and wt.a[1] == 0 and is_call(wt.a[0], "div_assign") or is_call(wt, "div")
                ctx.ob("disco:weight", ok_, "the weight of a rule is divided by the sum of the weights of its left-hand side: " + show(wt, 3), f)
                w0, w1 = (wt.a[0].a[1] if wt.op == "eff" else wt.a[1])[:2] if ok_ else (None, None)
                own = frozenset((p, x) for p, x in c if not (p.op == "is" and p.a[1] in ("Chain", "Binary")))
                e = first_conj([MORE(CS, I("r"))], [DONE], own)
                if e is not None:
                    var = [p.a[1] if v_ else {"Chain": "Binary", "Binary": "Chain"}[p.a[1]] for p, v_ in c if p.op == "is" and p.a[1] in ("Chain", "Binary")]
                    var = var[0] if var else None
                    for c1, h in alts(field(el, "head")):
                        ctx.ob("disco:head", first(lhs, h, e) is not None, "the left-hand side is that of the constituent: " + show(h), f)
                    if ok_:
                        ctx.ob("disco:own-weight", first(F(R, "2"), w0, e) is not None, "the weight is that of the constituent: " + show(w0), f)
                        den.append((w1, lhs, e))
                    for c2, xs in tails(field(el, "tail")):
                        for k2 in c_and(frozenset([c]), c2):
                            vs = [p.a[1] if v_ else {"Chain": "Binary", "Binary": "Chain"}[p.a[1]] for p, v_ in k2 if p.op == "is" and p.a[1] in ("Chain", "Binary")]
                            kinds |= set(vs)
                            want = {"Chain": [F(d, "Chain:rhs")], "Binary": [F(d, "Binary:rhs1"), F(d, "Binary:rhs2")]}.get(vs[0] if vs else "")
                            ok2 = want is not None and xs is not None and len(want) == len(xs) and all(first(w, x, e) for w, x in zip(want, xs))
                            ctx.ob("disco:tail", ok2, "the successors are those of the constituent, in order: " + show(field(el, "tail"), 4), f)
                    Y = F(R, "1")

                    def which(p, e, Y=Y):
                        ms = {m for m in walk(p) if first(F(IX(Y, I("c")), "1"), m, e)}
                        ns = {i for i in walk(p) if i.op == "pos" and not any(i in list(walk(m)) for m in ms)}
                        if len(ms) == 1 and len(ns) == 1:
                            return bit_test(p, ns.pop(), ms.pop())
                        return None
                    try:
                        numbered(ctx, "disco", f, v, composition_value(field(el, "composition")), Y, [MORE(CS, I("r"))], which)
                    except NoValue as x:
                        ctx.ob("disco:bit", False, "an entry is the bit of the yield function with its number: " + str(x), f)
                    continue
                e = first_conj([MORE(LX, I("w"))], [DONE, MORE(lx, I("o")), IS(lx, "Some")], own)
                ctx.ob("disco:every", e is not None, "every constituent and every word becomes a rule: " + showc(frozenset([c])), f)
                if e is None:
                    continue
                kinds.add("word")
                ctx.ob("disco:word", first(F(L, "1"), field(el, "head"), e) is not None and empty_list(field(el, "tail")),
                       "a word has its part of speech as left-hand side and no successors: %s, %s" % (show(field(el, "head")), show(field(el, "tail"))), f)
                body = list_of(composition_value(field(el, "composition")))
                inner = list_of(body[0]) if body and len(body) == 1 else None
                if body and len(body) == 1 and is_adt(body[0], "VarT"):
                    inner = body
                ctx.ob("disco:word:composition", bool(inner) and len(inner) == 1 and is_adt(inner[0], "VarT", "T") and first(F(L, "0"), field(inner[0], "0", "T"), e) is not None,
                       "the rule for a word has one component with just this word: " + show(field(el, "composition"), 6), f)
                if ok_:
                    ctx.ob("disco:word:weight", first(F(L, "2"), w0, e) is not None, "the weight is that of the word: " + show(w0), f)
                    den.append((w1, F(L, "1"), e))
        ctx.ob("disco:kinds", kinds == {"Chain", "Binary", "word"}, "constituents with one and two successors, and words are converted", f)
        # the sums
        sums = set()
        for t, key, e in den:
            m = first(lookup(V("m"), V("k")), t) or first(CALL("index", V("m"), V("k")), t)
            ok_ = m is not None and all(first(key, x, e) is not None for c, x in alts(m["k"]))
            ctx.ob("disco:denominator", ok_, "the denominator is that of the rule's own left-hand side: " + show(t, 4), f)
            if m:
                sums.add(m["m"])
        ctx.ob("disco:one-map", len(sums) == 1, "constituents and words are divided by the same sums", f)
        keys, vals, adds = set(), set(), 0
        for x in v.events:
            last = x.path.split("::")[-1]
            if x.kind == "call" and last == "entry" and len(x.args) == 2:
                keys |= {y for c, y in alts(x.args[1])}
                for k in x.cond:
                    bad = [p for p, v_ in k if v_ and p.op not in ("more", "chain") and not (p.op == "is" and p.a[1] in ("Some", "Chain", "Binary", "Ok"))]
                    ctx.ob("disco:sum:every", not bad, "every weight is added to a sum: " + showc(frozenset([frozenset((p, True) for p in bad)])), f)
            if x.kind == "call" and last in ("insert", "or_insert") and ("Entry" in x.path):
                vals |= {y for c, y in alts(x.args[1])}
            if x.kind == "call" and last == "add_assign":
                adds += 1
                vals |= {y for c, y in alts(x.args[1])}
        if keys and vals:
            kk = {"c" if first(lhs, y) else "w" if first(F(L, "1"), y) else show(y) for y in keys}
            vv = {"c" if first(F(R, "2"), y) else "w" if first(F(L, "2"), y) else show(y) for y in vals}
            ctx.ob("disco:sum", kk == {"c", "w"} and vv == {"c", "w"} and adds >= 1,
                   "the sums are those of the weights of all constituents and words with the same left-hand side: %s / %s" % (sorted(kk), sorted(vv)), f)
        else:
            ctx.undecided("disco:sum", "no map entries found", f)
    # ---------------------------------------------------------------- lexers
    f = ctx.method(r"from_discodop::DiscoDopGrammar", None, "with_lexer")
    if f:
        s, l = (mk("arg", i, f["locals"][i]["name"] or "") for i in (1, 2))
        for k, r in paths(ctx.view(f)):
            ctx.ob("with_lexer", is_adt(r, "DiscoDopGrammar") and field(r, "constituents") is fld(s, "constituents") and is_some(field(r, "lexer")) and
                   payload(field(r, "lexer")) is l, "the lexer is added to the constituents: " + show(r, 3), f)
    f = ctx.method(r"from_discodop::DiscoDopGrammar", None, "with_default_lexer")
    if f:
        v = ctx.view(f)
        s = mk("arg", 1, f["locals"][1]["name"] or "")
        CS = F(s, "constituents", "0")
        d = F(IX(CS, I("r")), "0")
        for k, r in paths(v):
            ok_ = is_adt(r, "DiscoDopGrammar") and field(r, "constituents") is fld(s, "constituents") and is_some(field(r, "lexer"))
            ctx.ob("default-lexer", ok_ and after_all(k), "the constituents are kept and a lexer is added: " + show(r, 3), f)
            if not ok_:
                continue
            ws = field(payload(field(r, "lexer")), "0")
            for el, c in cases(ws):
                ok_ = el.op == "tuple" and len(el.a) == 3 and el.a[0] is el.a[1] and is_call(el.a[2], "one")
                ctx.ob("default-lexer:word", ok_, "each part of speech is its own word, with weight one: " + show(el, 3), f)
        marks = {}
        for x in v.events:
            last = x.path.split("::")[-1]
            if x.kind == "call" and last == "or_insert" and is_call(x.args[0], "entry"):
                key = x.args[0].a[1][1]
                for c2, y in alts(key):
                    who = "lhs" if first(ALT(F(d, "Chain:lhs"), F(d, "Binary:lhs")), y) else "rhs" if first(ALT(F(d, "Chain:rhs"), F(d, "Binary:rhs1"), F(d, "Binary:rhs2")), y) \
                        else show(y)
                    marks.setdefault(who, set()).add((y, x.args[1]))
            if x.kind == "write" and last == "=" and is_call(x.args[0], "or_insert") and is_call(x.args[0].a[1][0], "entry"):
                y = x.args[0].a[1][0].a[1][1]
                who = "set:lhs" if first(ALT(F(d, "Chain:lhs"), F(d, "Binary:lhs")), y) else "set:other"
                marks.setdefault(who, set()).add((y, x.args[1]))
        if set(marks) == {"lhs", "rhs", "set:lhs"} or marks:
            ctx.ob("default-lexer:lhs", {b for _, b in marks.get("set:lhs", ())} == {const(False)} and len(marks.get("set:lhs", ())) == 2 and "set:other" not in marks,
                   "a nonterminal on a left-hand side is not a part of speech", f)
            ctx.ob("default-lexer:rhs", {b for _, b in marks.get("rhs", ())} == {const(True)} and len(marks.get("rhs", ())) == 3,
                   "any other nonterminal on a right-hand side is a part of speech", f)
        else:
            ctx.undecided("default-lexer:parts", "no map entries found", f)
