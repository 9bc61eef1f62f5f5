"""Rules about text: what is printed and what is read."""
from base import *
from pat import *
from text import *
from grammar import comp_of


def expand_text(ps):
    """the alternatives of a text: (condition, pieces without alternatives at the top)"""
    out = [(TRUE, [])]
    for p in ps:
        if p[0] == "alt":
            out = [(c_and(c, d), x + y) for c, x in out for d, b in p[1] for y in [y for y in [b]] for d, y in [(c_and(d, d2), y2) for d2, y2 in expand_text(y)]]
        else:
            out = [(c, x + [p]) for c, x in out]
    return [(c, joined(x)) for c, x in out if c]


def joined(ps):
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return out


def shape(ctx, key, ty, items, text, trait=r"Display"):
    """the text of a value that has one form"""
    f = display(ctx, ty, trait)
    if not f:
        return
    ps = text_of(ctx, f)
    s = mk("arg", 1, f["locals"][1]["name"] or "")
    e = first_text(items(s), ps)
    if e is None and unread(ps):
        return ctx.undecided(key, "the text is put together in a way that has no model: " + showt(ps), f)
    ctx.ob(key, e is not None, text + "; here: " + showt(ps), f)


def forms(ctx, key, ty, cases_, text, trait=r"Display"):
    """the text of a value that has one form per variant"""
    f = display(ctx, ty, trait)
    if not f:
        return
    ps = text_of(ctx, f)
    s = mk("arg", 1, f["locals"][1]["name"] or "")
    al = expand_text(ps)
    for variant, items in cases_(s).items():
        mine = [(c, x) for c, x in al if any((mk("is", s, variant), True) in k or not any(p.op == "is" and p.a[0] is s for p, _ in k) and
                                             (mk("is", s, variant), False) not in k for k in c)]
        if any(unread(x) for _, x in mine) and not all(first_text(items, x) is not None for _, x in mine):
            ctx.undecided("%s:%s" % (key, variant), "the text is put together in a way that has no model", f)
            continue
        ctx.ob("%s:%s" % (key, variant), bool(mine) and all(first_text(items, x) is not None for _, x in mine),
               "%s, a %s; here: %s" % (text, variant, " / ".join(showt(x) for _, x in mine) or "nothing"), f)


def unread(ps):
    """does a text have a part that is not understood"""
    return any(p[0] == "opaque" or p[0] in ("rep", "cut") and unread(p[2]) or p[0] == "alt" and any(unread(x) for _, x in p[1]) for p in ps)


def display(ctx, ty, trait):
    return ctx.method(ty, trait, "fmt")


# ---------------------------------------------------------------- F01
def f01(ctx):
    def letters(c):
        return ['[', REP([MORE(c, I("i"))], [D(IX(c, I("i")))], ", "), ']']

    def components(c):
        x = IX(c, I("i"))
        return ['[', REP([MORE(c, I("i"))], ['[', REP([MORE(x, I("j"))], [D(IX(x, I("j")))], ", "), ']'], ", "), ']']

    def quoted(xs):
        return REP([MORE(xs, I("n"))], ['"', D(IX(xs, I("n"))), '"'], ", ")

    def lines(xs):
        return REP([MORE(xs, I("r"))], [D(IX(xs, I("r"))), "\n"])

    forms(ctx, "letter", r"cfg::LetterT", lambda s: {"Value": ['T "', D(F(s, "Value:0")), '"'], "Label": ['Nt "', D(F(s, "Label:0")), '"']},
          "a terminal is printed as T and its quoted name, a nonterminal as Nt and its quoted name")
    forms(ctx, "variable", r"pmcfg::VarT", lambda s: {"T": ['T "', D(F(s, "T:0")), '"'], "Var": ['Var ', D(F(s, "Var:0")), ' ', D(F(s, "Var:1"))]},
          "a terminal is printed as T and its quoted name, a variable as Var, the successor and the component")
    shape(ctx, "cfg:composition", r"cfg::CFGComposition", lambda s: letters(F(s, "composition")),
          "a right-hand side is printed as the list of all its symbols in brackets, separated by commas")
    shape(ctx, "cfg:rule", r"cfg::CFGRule", lambda s: ['"', D(F(s, "head")), '" → ', [[D(F(s, "composition"))], letters(F(s, "composition", "composition"))],
                                                      '  # ', D(F(s, "weight"))],
          "a context-free rule is printed as its quoted left-hand side, →, its right-hand side, # and its weight")
    shape(ctx, "pmcfg:composition", r"pmcfg::Composition", lambda s: components(F(s, "composition")),
          "a composition is printed as the list of all its components, each a list of all its symbols")
    shape(ctx, "pmcfg:rule", r"pmcfg::PMCFGRule", lambda s: ['"', D(F(s, "head")), '" → ', [[D(F(s, "composition"))], components(comp_of(s))], ' (',
                                                            quoted(F(s, "tail")), ')  # ', D(F(s, "weight"))],
          "a rule is printed as its quoted left-hand side, →, its composition, all its quoted successors in parentheses, # and its weight")
    shape(ctx, "pmcfg:grammar", r"pmcfg::PMCFG\b", lambda s: ['initial: [', quoted(F(s, "initial")), ']\n\n', lines(F(s, "rules"))],
          "a PMCFG is printed as the list of all its quoted initial nonterminals, an empty line, and each rule on a line of its own")
    shape(ctx, "lcfrs:grammar", r"lcfrs::Lcfrs", lambda s: ['initial: ["', D(F(s, "init")), '"]\n\n', lines(F(s, "rules"))],
          "an LCFRS is printed as the list with its quoted initial nonterminal, an empty line, and each rule on a line of its own")
