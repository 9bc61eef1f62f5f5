"""Rules about reading: the text formats of grammars, automata and treebanks."""
import os
import peg
from base import *
from pat import *
from grammar import DONE, list_of
from imports import bits, NoValue
import facts

# ---------------------------------------------------------------- reference grammars
COMMON = r'''
named!(text<&str>, map_res!(alt!(delimited!(tag!("\""), escaped!(is_not!("\"\\"), '\\', one_of!("\\\"")), tag!("\"")) |
    recognize!(many1!(complete!(preceded!(not!(tag!("→")), none_of!(" \\\"-,;)]%#")))))), from_utf8));
fn token(input: &[u8]) -> R { do_parse!(input, s: text >> t: expr_res!(s.parse()) >> (t)) }
fn list(input: &[u8], inner: P, open: &str, end: &str) -> R {
    do_parse!(input, tag!(open) >> take_while!(is_space) >>
        r: many0!(do_parse!(opt!(tag!(",")) >> take_while!(is_space) >> x: inner >> take_while!(is_space) >> (x))) >> tag!(end) >> (r)) }
fn arrow(input: &[u8]) -> R { alt!(input, tag!("→") | tag!("->") | tag!("=>")) }
fn weight(input: &[u8]) -> R { opt!(input, complete!(do_parse!(tag!("#") >> take_while!(is_space) >> s: map_res!(is_not!(" "), from_utf8) >> w: expr_res!(s.parse()) >> (w)))) }
fn end(input: &[u8]) -> R { alt!(input, eof!() | preceded!(tag!("%"), take_while!(|_| true))) }
fn number(input: &[u8]) -> R { do_parse!(input, s: map_res!(digit, from_utf8) >> n: expr_res!(s.parse()) >> (n)) }

fn initials(input: &[u8]) -> R { do_parse!(input, tag!("initial:") >> take_while!(is_space) >> r: call!(|x| list(x, token, "[", "]")) >> (r)) }
fn finals(input: &[u8]) -> R { do_parse!(input, tag!("final:") >> take_while!(is_space) >> r: call!(|x| list(x, token, "[", "]")) >> (r)) }
fn initial(input: &[u8]) -> R { do_parse!(input, tag!("initial:") >> take_while!(is_space) >> r: token >> take_while!(|_| true) >> (r)) }
fn comment(input: &[u8]) -> R { do_parse!(input, tag!("%") >> take_while!(|_| true) >> (())) }

fn letter(input: &[u8]) -> R { alt!(input, do_parse!(tag!("Nt") >> take_while!(is_space) >> t: token >> (LetterT::Label(t))) |
    do_parse!(tag!("T") >> take_while!(is_space) >> t: token >> (LetterT::Value(t)))) }
fn cfg_rule(input: &[u8]) -> R { do_parse!(input, head: token >> take_while!(is_space) >> arrow >> take_while!(is_space) >> c: call!(|x| list(x, letter, "[", "]")) >>
    take_while!(is_space) >> w: weight >> take_while!(is_space) >> end >>
    (CFGRule { head: head, composition: CFGComposition { composition: c }, weight: w.unwrap_or(W::one()) })) }

fn symbol(input: &[u8]) -> R { alt!(input, do_parse!(tag!("Var") >> take_while!(is_space) >> i: number >> take_while!(is_space) >> j: number >> (VarT::Var(i, j))) |
    do_parse!(tag!("T") >> take_while!(is_space) >> t: token >> (VarT::T(t)))) }
fn component(input: &[u8]) -> R { list(input, symbol, "[", "]") }
fn pmcfg_rule(input: &[u8]) -> R { do_parse!(input, head: token >> take_while!(is_space) >> arrow >> take_while!(is_space) >> c: call!(|x| list(x, component, "[", "]")) >>
    take_while!(is_space) >> tail: call!(|x| list(x, token, "(", ")")) >> take_while!(is_space) >> w: weight >> take_while!(is_space) >> end >>
    (PMCFGRule { head: head, tail: tail, composition: Composition { composition: c }, weight: w.unwrap_or(W::one()) })) }

fn transition(input: &[u8]) -> R { do_parse!(input, tag!("Transition") >> take_while!(is_space) >> word: call!(|x| list(x, token, "[", "]")) >> take_while!(is_space) >>
    tag!("(") >> s: map_res!(take_until!(")"), from_utf8) >> i: expr_res!(s.parse()) >> tag!(")") >> take_while!(is_space) >> w: weight >> take_while!(is_space) >>
    opt!(complete!(comment)) >> (Transition { word: word, weight: w.unwrap_or(W::one()), instruction: i })) }

fn class(input: &[u8]) -> R { do_parse!(input, label: token >> take_while!(is_space) >>
    set: alt!(do_parse!(tag!("*") >> (None)) | do_parse!(s: call!(|x| list(x, token, "[", "]")) >> (Some(from_iter(s))))) >> (EquivalenceClass { label: label, set: set })) }
'''
TREEBANK = r'''
fn word(input: &str) -> R { take_while1!(input, |c| !c.is_whitespace()) }
fn spaces(input: &str) -> R { space!(input) }
fn flag(input: &str) -> R { map!(input, alt!(tag!("true") | tag!("false")), |s| s == "true") }
fn flags(input: &str) -> R { delimited!(input, tag!("["), separated_list_complete!(tag!(", "), flag), tag!("]")) }
fn clause(input: &str) -> R { do_parse!(input, digit >> space >> ws: take_while1!(|c| !c.is_whitespace() && c != ':') >> weight: expr_res!(ws.parse()) >> tag!(":") >>
    ls: word >> lhs: expr_res!(ls.parse()) >> space >> tag!("-->") >> space >> fs: word >> rhs1: expr_res!(fs.parse()) >> space >>
    os: opt!(do_parse!(not!(tag!("[[[")) >> s: word >> space >> (s))) >> rhs2: expr_res!(os.map(|s| s.parse()).transpose()) >>
    y: complete!(delimited!(tag!("[["), separated_list_complete!(tag!(", "), flags), tag!("]]"))) >>
    (weight, lhs, if let Some(b) = rhs2 { Rhs::Binary(rhs1, b) } else { Rhs::Chain(rhs1) }, y)) }
fn clauses(input: &str) -> R { map!(input, separated_nonempty_list_complete!(tag!("\n"), clause), RparseClauses) }

fn bits(input: &str) -> R { separated_nonempty_list_complete!(input, tag!(","),
    map_opt!(take_while!(|c| c == '0' || c == '1'), |bs: &str| -> O { let payload = from_binary(bs)?; Some((bs.len() as u8, payload)) })) }
fn pseudocount(input: &str) -> R { map_res!(input, tuple!(digit, opt!(complete!(preceded!(tag!("/"), digit)))),
    |(n, d)| -> O { if let Some(denominator) = d { Ok(n.parse()? / denominator.parse()?) } else { n.parse() } }) }
fn constituents(input: &str) -> R { map!(input, separated_list_complete!(tag!("\n"), map_res!(
    tuple!(word, count_fixed!(&str, preceded!(space, word), 3), opt!(complete!(preceded!(space, word)))),
    |(l, [r, x, y], o)| -> O {
        if let Some(w) = o { Ok((DiscoDeriv::Binary { lhs: l.parse()?, rhs1: r.parse()?, rhs2: x.parse()? }, complete_text(bits(y)).to_result()?, complete_text(pseudocount(w)).to_result()?)) }
        else { Ok((DiscoDeriv::Chain { lhs: l.parse()?, rhs: r.parse()? }, complete_text(bits(x)).to_result()?, complete_text(pseudocount(y)).to_result()?)) } })), DiscoConstituents) }
fn lexer(input: &str) -> R { map_res!(input, separated_list_complete!(tag!("\n"), tuple!(terminated!(take_while!(|c| !c.is_whitespace()), space),
    separated_nonempty_list_complete!(space, tuple!(terminated!(take_while!(|c| !c.is_whitespace()), space), pseudocount)))), anything) }
'''
SPECS = {}
CODE = {}


def spec(name, text=COMMON):
    if (name, text) not in SPECS:
        s = peg.reference(text)
        SPECS[name, text] = peg.normal(peg.Peg(s).fn(name, s.files["reference"]))
    return SPECS[name, text]


def sources():
    if facts.REPO not in CODE:
        root = os.path.join(facts.REPO, "src")
        CODE[facts.REPO] = peg.Sources(root, sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if f.endswith(".rs")))
    return CODE[facts.REPO]


def grammar_of(ctx, key, f):
    """the grammar that a parser function of the program reads"""
    s = sources()
    rel = os.path.relpath(f["file"], "src")
    name = f["nname"].split("::")[-1]
    if rel not in s.files:
        ctx.undecided(key, "the source of %s is not there" % name, f)
        return None
    try:
        ctx.analysed.add(f["id"])
        return peg.normal(peg.Peg(s).fn(name, s.files[rel]))
    except peg.Unread as e:
        ctx.undecided(key, "the grammar of %s is written in a way that is not read: %s" % (name, e), f)
        return None


def calls(n, out):
    if isinstance(n, tuple):
        if len(n) == 3 and n[0] == "call" and isinstance(n[1], str):
            out.add(n[1])
        if n and n[0] in ("unread", "opaque", "name", "count", "prim"):
            out.add(n[0] if n[0] != "name" else n[1])
        for x in n:
            calls(x, out)
    return out


VALUES = {"$", "x", "b", "tuple", "call", "struct", "op", "if", "lit", "lam", "try", "unsome", "some", "as", "field", "name", "parsed", "res", "resopt", "match"}
PLAIN = {"$", "x", "lit", "call", "struct", "tuple", "name", "unsome", "field"}
CHANGES = {"trim_end_matches", "trim_start_matches", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "rev", "skip", "take", "add", "succ", "zero"}


def clear(a, b):
    """do two values that are written differently certainly differ?"""
    if a == b or not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
        return True
    if isinstance(a[0], str) and isinstance(b[0], str) and a[0] in VALUES and b[0] in VALUES:
        if a[0] == "op" and a[1] in "+-*/" and b[0] in PLAIN:
            return True
        if a[0] != b[0]:
            return a[0] in PLAIN and b[0] in PLAIN
        if a[0] == "op" and a[1] != b[1]:
            return len(a) == len(b) and a[2:] == b[2:]
    if len(a) != len(b):
        return a[0] in PLAIN or not isinstance(a[0], str)
    return all(clear(x, y) for x, y in zip(a, b))


def anything(a, b):
    """b, where the reference allows any value: a"""
    if b and isinstance(b, tuple) and b[0] == "call" and b[1] == "anything":
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(anything(x, y) for x, y in zip(a, b))
    return b


def same_grammar(ctx, key, f, sp, text):
    """the parser function f reads the reference grammar"""
    n = grammar_of(ctx, key, f)
    if n is None:
        return
    diffs = peg.compare(n, anything(n, sp))
    known = calls(sp, set())
    good = True
    for why, a, b in diffs:
        more = calls(a, set()) - known - CHANGES
        if more:
            ctx.undecided(key, "not compared (%s): %s" % (", ".join(sorted(map(str, more))), why), f)
        elif isinstance(b, tuple) and b and b[0] in VALUES and not clear(a, b):
            ctx.undecided(key, "not compared: " + why[:600], f)
        else:
            good = False
            ctx.ob(key, False, text + "; here: " + why[:600], f)
    if good:
        ctx.ob(key, True, text, f)


# ---------------------------------------------------------------- functions that call parsers
def NI(g):
    return "IResult<" in g["locals"][0]["ty"] and not any("IResult<" in g["locals"][i]["ty"] for i in range(1, g["argc"] + 1))


def parser_call(ctx, terms):
    """the parser functions that are called in terms: {call term: function}"""
    out = {}
    for t in terms:
        for x in walk(t):
            if x.op == "call" and len(x.a[1]) == 1:
                for g in ctx.p.fns.values():
                    if g["kind"] != "closure" and NI(g) and (g["nname"] == x.a[0] or g["nname"].endswith("::" + x.a[0]) or x.a[0].endswith("::" + g["nname"])):
                        out[x] = g
    return out


def terms_of(ps):
    out = []
    for k, r in ps:
        out.append(r)
        out += [p for p, _ in k]
    return out


def TRIM(x):
    return CALL(("trim", "trim_start", "trim_left"), x)


def not_found(ctx, key, f, calls_):
    ctx.undecided(key, "the parser that reads the text was not found (%d)" % len(calls_), f)


def whole(ctx, key, ty, sp, text, rest=False, wrap=None):
    """from_str: the value that the parser reads, or an error if it cannot be read (or something is left)"""
    f = ctx.method(ty, r"FromStr", "from_str")
    if not f:
        return
    v = ctx.view(f, noinline=NI)
    ps = paths(v)
    s = mk("arg", 1, f["locals"][1]["name"] or "")
    cs = parser_call(ctx, terms_of(ps))
    if len(cs) != 1:
        return not_found(ctx, key, f, cs)
    (c, g), = cs.items()
    s2 = ALT(s, CALL(("trim", "trim_end", "trim_right"), s)) if rest else s
    ctx.ob(key + ":text", first(ALT(s2, CALL(("as_bytes",), s2)), c.a[1][0]) is not None, "the whole text is read: " + show(c), f)
    same_grammar(ctx, key + ":grammar", g, sp, text)
    got = F(c, "Done:1") if wrap is None else wrap(F(c, "Done:1"))
    isdone = IS(c, "Done")
    rem = F(c, "Done:0")
    left = [EQ(LEN(rem), const(0)), EQ(LEN(CALL(("trim", "trim_start", "trim_end"), rem)), const(0)),
            ALL(CALL(("is_whitespace", "is_ascii_whitespace"), IX(CALL(("chars", "bytes"), rem), I("r"))), [MORE(ANY, I("r"))])]
    oks = 0
    for k, r in ps:
        if is_ok(r):
            oks += 1
            ctx.ob(key + ":value", first(got, payload(r)) is not None, "the value is what was read: " + show(payload(r)), f)
            if rest:
                good = any(first_conj([isdone, l], [], k) is not None for l in left)
            else:
                good = first_conj([isdone], left, k) is not None
            ctx.ob(key + ":accepts", good, "a text is accepted iff it can be read%s: %s" % (" and nothing but white space is left of it" if rest else "", showc(frozenset([k]))), f)
        elif is_err(r):
            good = any(not b and (first(isdone, p) is not None or (rest and any(first(l, p) is not None for l in left))) for p, b in k)
            ctx.ob(key + ":rejects", good, "a text is rejected only if it cannot be read: " + showc(frozenset([k])), f)
        else:
            ctx.undecided(key + ":value", "the result is not understood: " + show(r), f)
    ctx.ob(key + ":read", oks > 0, "a text that can be read is accepted", f)
    no_panic(ctx, key, f, v)


def no_panic(ctx, key, f, v):
    pan = [x for x in v.events if x.kind == "panic"]
    ctx.ob(key + ":no-panic", not pan, "a malformed text is an error, not a panic: " + ", ".join(x.path + " of " + show(x.args[0])[:80] for x in pan if x.args), f)


def lines(ctx, key, ty, single=False):
    """a grammar: one declaration or rule on each line"""
    f = ctx.method(ty, r"FromStr", "from_str")
    if not f:
        return
    v = ctx.view(f, noinline=NI)
    ps = [(only_one(v, k), r) for k, r in paths(v)]
    s = mk("arg", 1, f["locals"][1]["name"] or "")
    L = CALL(("lines",), s)
    l = IX(L, I("i"))
    more = MORE(L, I("i"))
    cs = parser_call(ctx, terms_of(ps))
    if len({g["id"] for g in cs.values()}) != 1:
        return not_found(ctx, key, f, cs)
    g = list(cs.values())[0]
    same_grammar(ctx, key + ":initial", g, spec("initials"), "initial nonterminals are the tokens, in brackets, behind `initial:`")
    name = g["nname"].split("::")[-1]
    P = CALL((name,), ALT(CALL(("as_bytes",), TRIM(l))))
    PD = IS(P, "Done")
    SI = CALL(("starts_with",), TRIM(l), LIT("initial:"))
    SC = CALL(("starts_with",), TRIM(l), ALT(LIT("%"), LIT(37)))
    BL = EQ(LEN(TRIM(l)), const(0))
    R = CALL(("from_str", "parse"), TRIM(l))
    RO = IS(R, "Ok")
    rule = [more, (SI, False), (SC, False), (BL, False)]
    other = [(SC, False), (BL, False)]
    inits = COLL(IX(F(P, "Done:1"), I("j")), [more, SI, PD, MORE(F(P, "Done:1"), I("j"))], other)
    rules = COLL(F(R, "Ok:0"), rule + [RO])
    count = ALT(LEN(inits), CALL(("count",), COLL(ANY, [more, SI, PD, MORE(F(P, "Done:1"), I("j"))], other)))
    one = EQ(count, const(1))
    hit = {}
    reasons = {"a malformed declaration of initial nonterminals": ([more, SI, (PD, False)], other),
               "a malformed rule": ([more, (RO, False)], rule[1:])}
    if single:
        reasons["not exactly one initial nonterminal"] = ([(one, False)], [DONE])
        none = ([EQ(count, const(0))], [DONE])
    known = [more, SI, SC, BL, PD, RO, one, EQ(count, const(0)), DONE[0], MORE(ANY, ANY)]
    for k, r in ps:
        odd = [p for p, _ in k if not any(first(q, p) is not None for q in known)]
        if odd:
            ctx.undecided(key, "a condition that is not understood: " + show(odd[0]), f)
            continue
        if is_ok(r):
            m = payload(r)
            if m.op != "adt":
                ctx.undecided(key, "the grammar is not understood: " + show(m), f)
                continue
            d = dict(m.a[2])
            ctx.ob(key + ":rules", first(rules, d.get("rules", NONE)) is not None,
                   "the rules are what is read from each line that is not blank, no comment and no declaration, in order: " + show(d.get("rules", NONE)), f)
            if single:
                it = d.get("init", NONE)
                ctx.ob(key + ":initials", any(first(inits, x) is not None for x in walk(it)), "the initial nonterminal is the declared one: " + show(it), f)
                ctx.ob(key + ":accepts", first_conj([one], [DONE], k) is not None,
                       "a grammar with one initial nonterminal is accepted after all lines have been read: " + showc(frozenset([k])), f)
            else:
                it = d.get("initial", NONE)
                ctx.ob(key + ":initials", first(inits, it) is not None, "the initial nonterminals are those of all declarations, in order: " + show(it), f)
                ctx.ob(key + ":accepts", first_conj([], [DONE], k) is not None, "a grammar is accepted after all lines have been read: " + showc(frozenset([k])), f)
        elif is_err(r):
            why = [n for n, (ls, opt) in reasons.items() if first_conj(ls, opt, k) is not None]
            if not why and single and first_conj(none[0], none[1], k) is not None:
                continue                                     # one of the ways to have not exactly one
            ctx.ob(key + ":rejects", bool(why), "a grammar is rejected only for %s; here: %s" % (", ".join(reasons), showc(frozenset([k]))), f)
            for w in why:
                hit[w] = True
        else:
            ctx.undecided(key, "the result is not understood: " + show(r), f)
    for w in reasons:
        ctx.ob(key + ":rejects:" + w, w in hit, "a grammar with %s is rejected" % w, f)
    no_panic(ctx, key, f, v)


def only_one(v, k):
    """a list that is empty after its only element is taken has one element"""
    for p, x in k:
        c = first(EQ(LEN(OP("eff", CALL(("pop", "pop_front"), V("c")), 0)), const(0)), p)
        if c is None:
            continue
        n = v.length(c["c"])
        if x:
            if (mk("eq", n, const(0)), False) in k:
                return k - {(p, x), (mk("eq", n, const(0)), False)} | {(mk("eq", n, const(1)), True)}
        else:
            return k - {(p, x), (mk("eq", n, const(0)), False)} | {(mk("eq", n, const(1)), False)}
    return k


def LIT(x):
    return V("lit:" + str(x), lambda t: t.op in ("c", "constitem") and x_of(t) == x)


def x_of(t):
    a = t.a[0] if t.op == "constitem" else t.a[1]
    if t.op == "constitem" and isinstance(a, str):
        a = a.strip('"')
    return a


# ---------------------------------------------------------------- Q01
def q01(ctx):
    whole(ctx, "cfg-rule", r"cfg::CFGRule\b", spec("cfg_rule"), "a context-free rule is a token, an arrow, the bracketed list of Nt and T symbols, an optional weight and an optional comment")
    whole(ctx, "pmcfg-rule", r"pmcfg::PMCFGRule\b", spec("pmcfg_rule"),
          "a rule is a token, an arrow, the bracketed list of bracketed components of Var and T symbols, the successors in parentheses, an optional weight and an optional comment")
    lines(ctx, "cfg", r"cfg::CFG\b")
    lines(ctx, "pmcfg", r"pmcfg::PMCFG\b")
    lines(ctx, "lcfrs", r"lcfrs::Lcfrs\b", single=True)


# ---------------------------------------------------------------- E01 (text)
def classes(ctx):
    whole(ctx, "class", r"equivalence_classes::EquivalenceClass\b", spec("class"), "a class is a label and the bracketed list of its elements, or * for all others", rest=True)


# ---------------------------------------------------------------- Q02
def q02(ctx):
    whole(ctx, "rparse", r"from_rparse::RparseClauses", spec("clauses", TREEBANK), "an rparse grammar is a clause `number weight:lhs --> rhs [rhs] [[[true, …], …]]` on each line", rest=True)
    whole(ctx, "discodop", r"from_discodop::DiscoDopGrammar", spec("constituents", TREEBANK),
          "a disco-dop grammar has a rule on each line: left-hand side, one or two successors, yield function and weight", rest=True,
          wrap=lambda p: ADT("DiscoDopGrammar", constituents=p, lexer=ADT("Option", "None")))
    whole(ctx, "lexer", r"from_discodop::DiscoLexer", spec("lexer", TREEBANK), "a disco-dop lexer has a word and pairs of nonterminal and weight on each line", rest=True)
    entries(ctx)
    binary(ctx)
    makers(ctx)


def made(ctx, src, args, ret):
    """the functions (also closures) of a file with these types"""
    return [f for f in ctx.p.fns.values() if f["file"].endswith(src) and re.search(ret, f["locals"][0]["ty"]) and
            f["argc"] >= (2 if f["kind"] == "closure" else 1) and re.search(args, f["locals"][2 if f["kind"] == "closure" else 1]["ty"])]


def makers(ctx):
    """the functions that make values from the parts of a disco-dop text"""
    src = "from_discodop.rs"
    # a component of a yield function: its length and its bits
    fs = made(ctx, src, r"^&(\S+ )?str$", r"^std::option::Option<\(u8, u64\)>$")
    for f in fs:
        s = mk("arg", 2 if f["kind"] == "closure" else 1, f["locals"][2 if f["kind"] == "closure" else 1]["name"] or "")
        for k, r in paths(ctx.view(f, noinline=lambda g: NI(g) or g["nname"].endswith("::from_binary"))):
            if not is_some(r) or payload(r).op != "tuple" or len(payload(r).a) != 2:
                continue
            n, bits_ = payload(r).a
            B = CALL("from_binary", s)
            says = lambda t: any(first(B, x) is not None for x in walk(t))
            if not says(bits_):
                ctx.undecided("yield:bits", "the bits of a component are not made by from_binary: " + show(bits_), f)
                continue
            ctx.ob("yield:length", not says(n) and any(x is s for x in walk(n)), "the length of a component is the number of its digits and does not depend on their values: " + show(n, 6), f)
            for p, v in k:
                ctx.ob("yield:any", p.op in ("is", "call") or any(x is const(64) for x in walk(p)),
                       "any digits make a component: " + showc(frozenset([frozenset([(p, v)])])), f)
    # a weight
    for f in made(ctx, src, r"^\(&(\S+ )?str, std::option::Option<&(\S+ )?str>\)$", r"^std::result::Result<"):
        a = mk("arg", 2 if f["kind"] == "closure" else 1, f["locals"][2 if f["kind"] == "closure" else 1]["name"] or "")
        A, B = CALL("from_str", F(a, "0")), CALL("from_str", F(a, "1", "Some:0"))
        has = IS(F(a, "1"), "Some")
        hit = set()
        for k, r in paths(ctx.view(f)):
            if any(p.op != "is" and p.op != "call" and any(x is a for x in walk(p)) for p, _ in k):
                ctx.ob("weight:condition", False, "whether a weight is a fraction depends on the presence of a denominator only: " + showc(frozenset([k])), f)
                continue
            if first_conj([has, IS(A, "Ok"), IS(B, "Ok")], [], k) is not None and is_ok(r):
                hit.add("fraction")
                ctx.ob("weight:fraction", first(CALL("div", F(A, "Ok:0"), F(B, "Ok:0")), payload(r)) is not None or first(OP("div", F(A, "Ok:0"), F(B, "Ok:0")), payload(r)) is not None,
                       "a fraction is its numerator divided by its denominator: " + show(r, 6), f)
            elif first_conj([(has, False)], [IS(A, "Ok")], k) is not None and not is_err(r):
                hit.add("number")
                ctx.ob("weight:number", first(A, r) is r or first(A, r) is not None, "a number is read as it is: " + show(r, 6), f)
        if not hit:
            ctx.undecided("weight", "no case of a weight is understood", f)


def entries(ctx):
    """the entries of a lexer: one for each word and pair"""
    d = ctx.method(r"from_discodop::DiscoLexer", r"FromStr", "from_str", quiet=True)
    if not d:
        return
    cs = parser_call(ctx, terms_of(paths(ctx.view(d, noinline=NI))))
    if len(cs) != 1:
        return not_found(ctx, "lexer:entries", d, cs)
    g = list(cs.values())[0]
    fs = [f for f in ctx.p.fns.values() if f["kind"] == "closure" and f["nname"].startswith(g["nname"] + "::") and "DiscoLexer" in f["locals"][0]["ty"]]
    if len(fs) != 1:
        return ctx.undecided("lexer:entries", "the function that makes the entries was not found", g)
    f = fs[0]
    v = ctx.view(f)
    a = mk("arg", 2, f["locals"][2]["name"] or "")
    line = IX(a, I("i"))
    pairs = F(line, "1")
    pair = IX(pairs, I("j"))
    W = CALL(("from_str",), F(line, "0"))
    N = CALL(("from_str",), F(pair, "0"))
    intro = [MORE(a, I("i")), MORE(pairs, I("j"))]
    bad = {"word": ([MORE(a, I("i")), (IS(W, "Ok"), False)], [MORE(pairs, I("j")), IS(N, "Ok")]), "nonterminal": (intro + [(IS(N, "Ok"), False)], [IS(W, "Ok")])}
    hit = set()
    for k, r in paths(v):
        if is_ok(r):
            ctx.ob("lexer:entries", first(ADT("DiscoLexer", _0=COLL(TUP(F(W, "Ok:0"), F(N, "Ok:0"), F(pair, "1")), intro, [IS(W, "Ok"), IS(N, "Ok")])), payload(r)) is not None,
                   "a lexer has an entry with the word, nonterminal and weight of each pair on each line, in order: " + show(payload(r)), f)
            ctx.ob("lexer:entries:all", first_conj([], [DONE], k) is not None, "a lexer is accepted after all its entries have been read: " + showc(frozenset([k])), f)
        elif is_err(r):
            why = [n for n, (ls, opt) in bad.items() if first_conj(ls, opt, k) is not None]
            ctx.ob("lexer:entries:rejects", bool(why), "a lexer is rejected only for a word or nonterminal that cannot be read: " + showc(frozenset([k])), f)
            hit.update(why)
    for n in bad:
        ctx.ob("lexer:entries:rejects:" + n, n in hit, "a lexer with a malformed %s is rejected" % n, f)


def truth(p, env):
    """a literal over a character, a position and a state"""
    if p.op == "is" and (p.a[0], p.a[1]) in env:
        return env[p.a[0], p.a[1]]
    return bool(bits(p, env))


def states(t, env):
    """the value of a state: None, or (number,)"""
    if t.op == "phi":
        for c, x in t.a[0]:
            if any(all(truth(p, env) == b for p, b in k) for k in c):
                return states(x, env)
        raise NoValue(show(t))
    if is_none(t):
        return None
    if is_some(t):
        return (number(payload(t), env),)
    return (number(t, env),)


def number(t, env):
    if t in env:
        return env[t]
    if t.op == "phi":
        for c, x in t.a[0]:
            if any(all(truth(p, env) == b for p, b in k) for k in c):
                return number(x, env)
        raise NoValue(show(t))
    if t.op == "add":
        return sum(number(x, env) for x in t.a[0])
    if t.op == "cast":
        return number(t.a[0], env) & {"u8": 0xff, "u16": 0xffff, "u32": 0xffffffff, "i32": 0xffffffff}.get(t.a[2], -1)
    if t.op == "conv" and len([x for x in t.a if isinstance(x, T)]) == 1:
        return number([x for x in t.a if isinstance(x, T)][0], env)
    return bits(t, env)


def binary(ctx):
    """the number of a string of binary digits, lowest first"""
    f = ctx.fn(r"from_discodop::from_binary$", quiet=True)
    if not f:
        return ctx.undecided("binary", "from_binary is not there")
    v = ctx.view(f)
    s = mk("arg", 1, f["locals"][1]["name"] or "")
    chars = [CALL(("chars",), s), CALL(("bytes",), s), CALL(("as_bytes",), s)]
    found = []
    for L, x in v.loops.items():
        for b in x["back"]:
            for t in walk(b):
                if t.op == "idx" and any(first(q, t.a[0]) is not None for q in chars) and (t.a[1].op == "revp" or first(I("i"), t.a[1]) is not None):
                    found.append((L, x, t))
    found = list({(id(a), id(c)): (a, b, c) for a, b, c in found}.values())
    if len(found) != 1:
        return ctx.undecided("binary", "the sum over the digits was not found (%d)" % len(found), f)
    L, x, ch = found[0]
    try:
        good = all(states(i, {}) == (0,) for i in [x["init"]])
        opt = is_some(x["init"])
        for b, c in zip(x["back"], x["backc"]):
            for n in (0, 1, 5, 40, 63):
                for st in (None, (0,), (2 ** n - 1,)):
                    if st is None and not opt:
                        continue
                    for digit in (48, 49, 50):
                        at = ch.a[1] if ch.a[1].op != "revp" else ch.a[1].a[0]
                        env = {ch: digit, ch.a[1]: n, at: n if at is ch.a[1] else 63 - n, mk("len", s): 64, mk("len", ch.a[0]): 64, (L, "Some"): st is not None, (L, "None"): st is None}
                        if opt:
                            env[fld(L, "Some:0")] = st[0] if st else 0
                        else:
                            env[L] = st[0]
                        known = [k for k in c if all(truth(p, env) == w for p, w in k if p.op == "is" or has_(p, ch))]
                        if not known:
                            continue
                        want = None if st is None or digit == 50 else (st[0] + (digit == 49) * 2 ** n,)
                        if states(b, env) != want:
                            good = False
        ctx.ob("binary", good, "the digit at position n adds 2^n to the number, and there is no number if it is no binary digit: " + "; ".join(show(b) for b in x["back"]), f)
    except (NoValue, ValueError, ZeroDivisionError, OverflowError) as e:
        ctx.undecided("binary", "the sum over the digits is not understood: %s" % e, f)
    for x in v.events:
        if x.kind == "call" and x.path.endswith("impl::pow") and x.callee:
            ty = x.callee["path"].split("<impl ")[-1].split(">")[0]
            ctx.ob("binary:width", ty not in ("u8", "i8", "u16", "i16", "u32", "i32", "i64"), "the power for the last of 64 digits can be held: " + x.callee["path"], f)
    none = [k for k, r in paths(v) if is_none(r)]
    lim = [(LT(const(64), LEN(s)), True), (LT(LEN(s), const(65)), False)]
    about = [p for k, _ in paths(v) for p, _ in k if any(first(q, p) is not None for q in (LT(ANY, LEN(s)), LT(LEN(s), ANY)))]
    text = "exactly strings of more than 64 digits are too long: " + showc(frozenset(none))
    if any(is_call(y, "checked_pow", "checked_shl", "checked_add", "checked_mul") for x in v.loops.values() for b in x["back"] for y in walk(b)):
        ctx.undecided("binary:long", "overflow is checked in another way", f)
    else:
        ctx.ob("binary:long", any(first_conj([l], [], k) is not None for k in none for l in lim) and all(first(lim[0][0], p) is not None or first(lim[1][0], p) is not None for p in about), text, f)


def has_(p, t):
    return any(y is t for y in walk(p))
