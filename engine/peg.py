"""Grammars of the text readers: the combinator macros (nom) in the source, read as parsing expressions in a normal form.

A parser is a sequence of steps and a value over the results of the steps. Local parsers are inlined, nested sequences flattened, alternatives that
start differently ordered, so that two ways to write the same grammar give the same normal form. What has no reading here is `unknown`."""
import re
import os

TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<str>b?r?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:[^u]|u\{[0-9a-fA-F]+\})|[^'\\])')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<num>\d\w*)
 |(?P<id>[A-Za-z_]\w*)
 |(?P<p>=>|->|>>|::|\|\||&&|==|!=|<=|>=|\.\.|[^\s\w])
''', re.X | re.S)
ESC = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\", '"': '"', "'": "'", "0": "\0"}
OPEN = {"(": ")", "[": "]", "{": "}"}


class Unread(Exception):
    pass


def tokens(s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            i += 1
            continue
        i = m.end()
        if m.lastgroup != "ws":
            out.append((m.lastgroup, m.group()))
    return out


def unquote(s):
    s = s[s.index(s[-1]) + 1:-1]
    return re.sub(r"\\(u\{([0-9a-fA-F]+)\}|\n\s*|.)", lambda m: chr(int(m.group(2), 16)) if m.group(2) else "" if m.group(1)[0] == "\n" else ESC.get(m.group(1), m.group(1)), s, flags=re.S)


def close(ts, i):
    """index of the bracket closing the one at i"""
    depth = 0
    for j in range(i, len(ts)):
        k, t = ts[j]
        if k == "p" and t in OPEN:
            depth += 1
        elif k == "p" and t in OPEN.values():
            depth -= 1
            if depth == 0:
                return j
    raise Unread("unbalanced")


def angle(ts, i):
    """index after the generic arguments starting at i"""
    depth = 0
    while i < len(ts):
        t = ts[i][1]
        if t == "<":
            depth += 1
        elif t == ">":
            depth -= 1
        elif t == ">>":
            depth -= 2
        elif t in OPEN:
            i = close(ts, i)
        i += 1
        if depth <= 0:
            return i
    raise Unread("unbalanced <")


def split(ts, sep):
    """split at top level"""
    out, cur, i = [], [], 0
    while i < len(ts):
        k, t = ts[i]
        if k == "p" and t in OPEN:
            j = close(ts, i)
            cur += ts[i:j + 1]
            i = j + 1
            continue
        if k == "p" and t == "::" and i + 1 < len(ts) and ts[i + 1][1] == "<":
            j = angle(ts, i + 1)
            cur += ts[i:j]
            i = j
            continue
        if k == "p" and t == sep:
            out.append(cur)
            cur = []
        else:
            cur.append(ts[i])
        i += 1
    out.append(cur)
    return out


class Fn:
    def __init__(self, name, params, body, file, named=False, line=0, bytes=True):
        self.name, self.params, self.body, self.file, self.named, self.line = name, params, body, file, named, line
        self.bytes = bytes      # the input is a slice of bytes, not a string
        self.local = {}


class Source:
    """the functions and named parsers of one file"""
    def __init__(self, path, rel, text=None):
        self.rel = rel
        self.text = open(path, encoding="utf-8").read() if text is None else text
        ts = tokens(self.text)
        self.fns = {}
        self.items(ts, self.fns)

    def items(self, ts, into):
        i = 0
        skip = False
        while i < len(ts):
            k, t = ts[i]
            if t == "#" and i + 1 < len(ts) and ts[i + 1][1] == "[":
                j = close(ts, i + 1)
                if any(x[1] == "test" for x in ts[i + 1:j]):
                    skip = True
                i = j + 1
                continue
            if k == "id" and t in ("mod", "impl", "trait") and not (i and ts[i - 1][1] in (".", "::")):
                j = i
                while j < len(ts) and ts[j][1] not in ("{", ";"):
                    j += 1
                if j < len(ts) and ts[j][1] == "{":
                    e = close(ts, j)
                    if not skip and t != "impl":
                        self.items(ts[j + 1:e], into)
                    i = e + 1
                else:
                    i = j + 1
                skip = False
                continue
            if k == "id" and t == "fn" and i + 1 < len(ts) and ts[i + 1][0] == "id":
                name = ts[i + 1][1]
                j = i + 2
                if ts[j][1] == "<":
                    j = angle(ts, j)
                if ts[j][1] != "(":
                    i += 1
                    continue
                e = close(ts, j)
                ps = []
                for p in split(ts[j + 1:e], ","):
                    p = [x for x in p if x[1] not in ("mut", "&", "ref") and x[0] != "life"]
                    if p:
                        ps.append(p[0][1])
                b = e
                while b < len(ts) and ts[b][1] not in ("{", ";"):
                    b += 1
                if b < len(ts) and ts[b][1] == "{":
                    z = close(ts, b)
                    if not skip:
                        sig = [x[1] for x in ts[i:b]]
                        f = Fn(name, ps, ts[b + 1:z], self, bytes="u8" in sig or "str" not in sig)
                        self.items(f.body, f.local)
                        into.setdefault(name, f)
                    i = z + 1
                else:
                    i = b + 1
                skip = False
                continue
            if k == "id" and t == "named" and i + 2 < len(ts) and ts[i + 1][1] == "!" and ts[i + 2][1] in OPEN:
                e = close(ts, i + 2)
                body = ts[i + 3:e]
                h = 0
                while body[h][1] in ("pub", "#"):
                    h = close(body, h + 1) + 1 if body[h][1] == "#" or body[h + 1][1] == "(" else h + 1
                name = body[h][1]
                j = h + 1
                sig = []
                if body[j][1] == "<":
                    j = angle(body, j)
                    sig = split(body[h + 2:j - 1], ",")
                if body[j][1] == ",":
                    into.setdefault(name, Fn(name, [], body[j + 1:], self, named=True, bytes=not (len(sig) == 2 and any(x[1] == "str" for x in sig[0]))))
                i = e + 1
                skip = False
                continue
            if t == ";":
                skip = False
            i += 1


class Sources:
    def __init__(self, root, rels):
        self.files = {}
        for r in rels:
            p = os.path.join(root, r)
            if os.path.isfile(p):
                self.files[r] = Source(p, r)

    def find(self, name, src, fn=None):
        while fn is not None:
            if name in fn.local:
                return fn.local[name]
            fn = getattr(fn, "outer", None)
        if src is not None and name in src.fns:
            return src.fns[name]
        hits = [s.fns[name] for s in self.files.values() if name in s.fns]
        return hits[0] if len(hits) == 1 else None


# ---------------------------------------------------------------- values
COUNTER = [0]


def fresh():
    COUNTER[0] += 1
    return ("b", COUNTER[0])


class Values:
    """expressions that make a value; ("raw", text) for what is not understood"""
    def __init__(self, peg, src, fn, env):
        self.peg, self.src, self.fn, self.env = peg, src, fn, env

    def read(self, ts):
        v, i = self.expr(ts, 0)
        if i != len(ts):
            raise Unread("rest of an expression: " + " ".join(t for _, t in ts[i:i + 6]))
        return v

    PREC = [("||",), ("&&",), ("==", "!=", "<", ">", "<=", ">="), ("+", "-"), ("*", "/", "%")]

    def expr(self, ts, i, lvl=0, nostruct=False):
        if lvl == len(self.PREC):
            return self.unary(ts, i, nostruct)
        a, i = self.expr(ts, i, lvl + 1, nostruct)
        while i < len(ts) and ts[i][0] == "p" and ts[i][1] in self.PREC[lvl]:
            op = ts[i][1]
            b, i = self.expr(ts, i + 1, lvl + 1, nostruct)
            if op in (">", ">="):
                a, b, op = b, a, {">": "<", ">=": "<="}[op]
            if op in ("==", "!=", "+", "*", "&&", "||"):
                a, b = sorted((a, b), key=repr)
            a = ("op", op, a, b)
        return a, i

    def unary(self, ts, i, nostruct=False):
        if i >= len(ts):
            raise Unread("end of an expression")
        k, t = ts[i]
        if t in ("&", "*") and k == "p":
            i += 1
            if i < len(ts) and ts[i][1] == "mut":
                i += 1
            return self.unary(ts, i, nostruct)
        if t == "!" and k == "p":
            v, i = self.unary(ts, i + 1, nostruct)
            return ("op", "!", v), i
        v, i = self.primary(ts, i, nostruct)
        while i < len(ts):
            t = ts[i][1]
            if t == ".":
                name = ts[i + 1][1]
                i += 2
                if i < len(ts) and ts[i][1] == "::":
                    i = angle(ts, i + 1)
                if i < len(ts) and ts[i][1] == "(":
                    j = close(ts, i)
                    args = [self.read(a) for a in split(ts[i + 1:j], ",") if a]
                    v = self.method(v, name, args)
                    i = j + 1
                else:
                    v = v[1][int(name)] if v[0] == "tuple" and name.isdigit() and int(name) < len(v[1]) else ("field", v, name)
            elif t == "?":
                v = ("try", v)
                i += 1
            elif t == "(":
                j = close(ts, i)
                args = [self.read(a) for a in split(ts[i + 1:j], ",") if a]
                v = self.apply(v, args)
                i = j + 1
            elif t == "as" and ts[i][0] == "id":
                j = i + 2
                while j < len(ts) and ts[j][1] == "::":
                    j += 2
                v = ("as", v, ts[j - 1][1])
                i = j
            else:
                break
        return v, i

    def method(self, v, name, args):
        if name in ("clone", "to_owned", "as_str", "iter", "as_ref") and not args:
            return v
        if name == "unwrap_or_else" and len(args) == 1:
            d = self.apply(args[0], [])
            return ("call", "unwrap_or", (v, d))
        if name == "map_err":
            return v
        if name == "unwrap_or_default":
            return ("call", "unwrap_or", (v, ("call", "default", ())))
        return ("call", name, (v,) + tuple(args))

    def apply(self, f, args):
        if f[0] == "lam" and len(f[1]) == len(args):
            env = {}
            for p, a in zip(f[1], args):
                bind(p, a, env)
            return subst(f[2], env)
        if f[0] == "name":
            g = self.peg.src.find(f[1], self.src, self.fn)
            if g and not g.named and len(g.params) == len(args):
                try:
                    return Values(self.peg, g.file, g, dict(zip(g.params, args))).read(g.body)
                except Unread:
                    pass
            if g and len(args) >= 1 and (g.named or len(g.params) == len(args)):
                try:
                    return ("parsed", normal(self.peg.call(g, args[1:], self.fn)), args[0])
                except Unread:
                    pass
            return ("call", f[1], tuple(args))
        return ("call", f, tuple(args))

    def pattern(self, ts):
        """a pattern: names to be bound as ("var", name)"""
        ts = [x for x in ts if x[1] not in ("&", "mut", "ref")]
        parts = split(ts, ":")
        ts = parts[0]
        if not ts:
            raise Unread("pattern")
        if len(ts) == 1 and ts[0][0] == "id":
            return ("var", ts[0][1])
        if ts[0][1] in ("(", "[") and close(ts, 0) == len(ts) - 1:
            return ("tuple", tuple(self.pattern(p) for p in split(ts[1:-1], ",") if p))
        raise Unread("pattern")

    def block(self, ts):
        """a block: let statements and a final expression"""
        env = dict(self.env)
        me = Values(self.peg, self.src, self.fn, env)
        st = split(ts, ";")
        for s in st[:-1]:
            if not s:
                continue
            if s[0][1] != "let":
                raise Unread("statement")
            h = split(s[1:], "=")
            if len(h) < 2:
                raise Unread("let")
            bind(self.pattern(h[0]), me.read(s[2 + len(h[0]):]), env)
        return me.read(st[-1])

    def primary(self, ts, i, nostruct):
        k, t = ts[i]
        if k == "str":
            return ("lit", unquote(t)), i + 1
        if k in ("chr", "num"):
            return ("lit", unquote(t) if k == "chr" else t), i + 1
        if t == "|" or t == "||":
            ps = []
            j = i + 1
            if t == "|":
                e = j
                depth = 0
                while ts[e][1] != "|" or depth:
                    depth += ts[e][1] in OPEN
                    depth -= ts[e][1] in OPEN.values()
                    e += 1
                ps = [self.pattern(p) for p in split(ts[j:e], ",") if p]
                j = e + 1
            if ts[j][1] == "->":
                while ts[j][1] != "{":
                    j += 1
            inner = Values(self.peg, self.src, self.fn, dict(self.env))
            qs = []
            for p in ps:
                qs.append(rename(p, inner.env))
            if ts[j][1] == "{":
                e = close(ts, j)
                try:
                    body, j = inner.block(ts[j + 1:e]), e + 1
                except Unread as x:
                    body, j = ("unread", str(x), tuple(qs)), e + 1
            else:
                body, j = inner.expr(ts, j)
            return ("lam", tuple(qs), body), j
        if t == "(":
            j = close(ts, i)
            inner = split(ts[i + 1:j], ",")
            if len(inner) == 1 and inner[0]:
                return self.read(inner[0]), j + 1
            return ("tuple", tuple(self.read(a) for a in inner if a)), j + 1
        if t == "[":
            j = close(ts, i)
            return ("tuple", tuple(self.read(a) for a in split(ts[i + 1:j], ",") if a)), j + 1
        if t == "{":
            j = close(ts, i)
            return self.block(ts[i + 1:j]), j + 1
        if t == "if":
            j = i + 1
            e = j
            while ts[e][1] != "{":
                e = close(ts, e) + 1 if ts[e][1] in OPEN else e + 1
            env = dict(self.env)
            if ts[j][1] == "let":
                h = split(ts[j + 1:e], "=")
                if len(h) != 2:
                    raise Unread("if let")
                c = self.read(h[1])
                p = h[0]
                if len(p) >= 4 and p[0][1] == "Some" and p[1][1] == "(":
                    cond = ("some", c)
                    bind(self.pattern(p[2:-1]), ("unsome", c), env)
                else:
                    raise Unread("if let")
            else:
                cond, x = self.expr(ts, j, 0, True)
                if x != e:
                    raise Unread("if")
            z = close(ts, e)
            yes = Values(self.peg, self.src, self.fn, env).block(ts[e + 1:z])
            if z + 1 >= len(ts) or ts[z + 1][1] != "else":
                raise Unread("if without else")
            no, n = self.primary(ts, z + 2, nostruct)
            if cond[0] == "op" and cond[1] == "!":
                cond, yes, no = cond[2], no, yes
            return ("if", cond, yes, no), n
        if t == "match":
            j = i + 1
            e = j
            while ts[e][1] != "{":
                e = close(ts, e) + 1 if ts[e][1] in OPEN else e + 1
            c = self.read(ts[j:e])
            z = close(ts, e)
            arms = {}
            body = ts[e + 1:z]
            x = 0
            while x < len(body):
                y = x
                while body[y][1] != "=>":
                    y = close(body, y) + 1 if body[y][1] in OPEN else y + 1
                p = body[x:y]
                env = dict(self.env)
                if p[0][1] == "Some" and len(p) >= 4:
                    who = "Some"
                    bind(self.pattern(p[2:-1]), ("unsome", c), env)
                elif len(p) == 1 and p[0][1] in ("None", "_", "true", "false"):
                    who = p[0][1]
                else:
                    raise Unread("match")
                me = Values(self.peg, self.src, self.fn, env)
                if body[y + 1][1] == "{":
                    w = close(body, y + 1)
                    arms[who] = me.block(body[y + 2:w])
                    x = w + 1
                    if x < len(body) and body[x][1] == ",":
                        x += 1
                else:
                    w = y + 1
                    while w < len(body) and body[w][1] != ",":
                        w = close(body, w) + 1 if body[w][1] in OPEN else w + 1
                    arms[who] = me.read(body[y + 1:w])
                    x = w + 1
            if "Some" in arms:
                return ("if", ("some", c), arms["Some"], arms.get("None", arms.get("_"))), z + 1
            if "true" in arms or "false" in arms:
                d = arms.get("_")
                return ("if", c, arms.get("true", d), arms.get("false", d)), z + 1
            raise Unread("match")
        if k != "id":
            raise Unread("expression " + t)
        # a path
        j = i + 1
        while j < len(ts) and ts[j][1] == "::":
            if ts[j + 1][1] == "<":
                j = angle(ts, j + 1)
            else:
                t = ts[j + 1][1]
                j += 2
        simple = j == i + 1
        if j < len(ts) and ts[j][1] == "!" and j + 1 < len(ts) and ts[j + 1][1] in OPEN:
            e = close(ts, j + 1)
            if t in ("vec",):
                return ("tuple", tuple(self.read(a) for a in split(ts[j + 2:e], ",") if a)), e + 1
            raise Unread("macro " + t)
        if j < len(ts) and ts[j][1] == "{" and not nostruct and t[0].isupper():
            e = close(ts, j)
            fs = {}
            for p in split(ts[j + 1:e], ","):
                if not p:
                    continue
                if len(p) == 1:
                    fs[p[0][1]] = self.name(p[0][1])
                elif p[1][1] == ":":
                    fs[p[0][1]] = self.read(p[2:])
                else:
                    raise Unread("field")
            return ("struct", t, tuple(sorted(fs.items()))), e + 1
        if simple:
            return self.name(t), j
        return ("name", t), j

    def name(self, t):
        return self.env.get(t, ("name", t))


def bind(p, v, env):
    if p[0] == "var":
        env[p[1]] = v
    elif p[0] == "b":
        env[p] = v
    elif p[0] == "tuple":
        for n, q in enumerate(p[1]):
            bind(q, proj(v, n), env)


def proj(v, n):
    if v[0] == "tuple" and n < len(v[1]):
        return v[1][n]
    if v[0] == "if":
        return ("if", v[1], proj(v[2], n), proj(v[3], n))
    return ("proj", v, n)


def value(v):
    """alternatives outermost; Ok(x?) is x"""
    cs = sorted({c for c in conds(v)}, key=repr)
    if cs:
        c = cs[0]
        a, b = value(decide(v, c, True)), value(decide(v, c, False))
        return a if a == b else ("if", c, a, b)
    return tidy(v)


def conds(v):
    if isinstance(v, tuple) and v and v[0] != "lam" and v[0] != "seq":
        if v[0] == "if":
            if not list(conds(v[1])):
                yield v[1]
        for x in v:
            yield from conds(x)


def decide(v, c, yes):
    if isinstance(v, tuple) and v:
        if v[0] == "if" and v[1] == c:
            return decide(v[2] if yes else v[3], c, yes)
        return tuple(decide(x, c, yes) for x in v)
    return v


def tidy(v):
    if isinstance(v, tuple):
        v = tuple(tidy(x) for x in v)
        if v and v[0] == "call" and v[1] == "Ok" and len(v[2]) == 1 and v[2][0][0] == "try":
            return v[2][0][1]
    return v


def rename(p, env):
    if p[0] == "var":
        b = fresh()
        env[p[1]] = b
        return b
    return ("tuple", tuple(rename(q, env) for q in p[1]))


def subst(v, env):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "b":
            return env.get(v, v)
        r = tuple(subst(x, env) for x in v)
        if r and r[0] == "proj":
            return proj(r[1], r[2])
        return r
    return v


def bound(v, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "b":
            out.add(v)
        else:
            for x in v:
                bound(x, out)
    return out


# ---------------------------------------------------------------- parsers
# a parser in normal form: ("seq", ((binder or None, step), ...), value)
PRIMS = {"digit", "space", "alpha", "alphanumeric", "multispace", "rest", "line_ending", "non_empty", "newline", "hex_digit"}


class Peg:
    def __init__(self, sources, bytes_files=()):
        self.src = sources
        self.depth = 0
        self.unknown = []

    def fn(self, name, src=None, args=(), fn=None):
        """normal form of a parser function"""
        f = self.src.find(name, src, fn)
        if f is None:
            raise Unread("no parser " + name)
        return self.call(f, list(args), fn)

    def call(self, f, args, outer=None):
        if self.depth > 30:
            raise Unread("recursive parser " + f.name)
        self.depth += 1
        try:
            if outer is not None and f.name in getattr(outer, "local", {}):
                f.outer = outer
            if f.named:
                return self.parser(f.body, f, {}, None)
            env = {}
            ps = f.params
            if len(args) != len(ps) - 1:
                raise Unread("arguments of " + f.name)
            for p, a in zip(ps[1:], args):
                env[p] = a
            body = self.tail(f, env)
            return self.entry(body, f, env, ps[0])
        finally:
            self.depth -= 1

    def tail(self, f, env):
        """the final expression of a function; other statements define local parsers or values, or do nothing"""
        ts = f.body
        i = 0
        while i < len(ts):
            k, t = ts[i]
            if k == "id" and t == "named" and ts[i + 1][1] == "!":
                i = close(ts, i + 2) + 1
                if i < len(ts) and ts[i][1] == ";":
                    i += 1
                continue
            if k == "id" and t == "fn":
                while ts[i][1] != "{":
                    i = close(ts, i) + 1 if ts[i][1] in OPEN else i + 1
                i = close(ts, i) + 1
                continue
            if t == "use":
                while ts[i][1] != ";":
                    i += 1
                i += 1
                continue
            if t == "#":
                i = close(ts, i + 1) + 1
                continue
            # statement
            j = i
            while j < len(ts) and ts[j][1] != ";":
                j = close(ts, j) + 1 if ts[j][1] in OPEN else j + 1
            if j >= len(ts):
                return ts[i:]
            s = ts[i:j]
            if s and s[0][1] == "return":
                return s[1:]
            if s and s[0][1] == "let" and not any(x[1] in f.params[:1] for x in s):
                h = split(s[1:], "=")
                if len(h) == 2:
                    n = [x for x in h[0] if x[1] not in ("mut",)]
                    if len(n) == 1 or n[1][1] == ":":
                        if n[0][1] == "_":
                            i = j + 1
                            continue
                        try:
                            env[n[0][1]] = Values(self, f.file, f, env).read(h[1])
                            i = j + 1
                            continue
                        except Unread:
                            pass
            elif not any(x[1] in f.params[:1] for x in s) and not any(x[1] in ("return", "?") for x in s):
                i = j + 1
                continue
            raise Unread("statement: " + " ".join(t for _, t in s[:8]))
        raise Unread("no final expression")

    def entry(self, ts, f, env, inp):
        """the tail expression of a parser function: a macro or call with the input as first argument"""
        if ts and ts[0][1] == "match":
            raise Unread("match on the result of a parser")
        i = 0
        while i + 2 < len(ts) and ts[i][0] == "id" and ts[i + 1][1] == "::":
            i += 2
            if ts[i][1] == "<":
                raise Unread("type")
        if ts[i][0] != "id":
            raise Unread("entry " + ts[i][1])
        name = ts[i][1]
        if i + 1 < len(ts) and ts[i + 1][1] == "!":
            e = close(ts, i + 2)
            args = split(ts[i + 3:e], ",")
            if e != len(ts) - 1 or not args or [t for _, t in args[0]] != [inp]:
                raise Unread("macro without input")
            rest = ts[i + 3 + len(args[0]) + 1:e]
            return self.macro(name, rest, f, env, inp)
        if i + 1 < len(ts) and ts[i + 1][1] in ("(", "::"):
            j = i + 1
            if ts[j][1] == "::":
                j = angle(ts, j + 1)
            e = close(ts, j)
            args = [a for a in split(ts[j + 1:e], ",") if a]
            if e != len(ts) - 1 or not args or [t for _, t in args[0]] != [inp]:
                raise Unread("call without input")
            return self.named_call(name, args[1:], f, env)
        raise Unread("entry")

    def named_call(self, name, args, f, env):
        vals = [self.arg(a, f, env) for a in args]
        if name in env:
            v = env[name]
            if v[0] == "fnref":
                return self.call(v[1], vals, v[2])
            if v[0] == "parser":
                return v[1]
            raise Unread("parser argument " + name)
        g = self.src.find(name, f.file, f)
        if g is None:
            if name in PRIMS and not vals:
                b = fresh()
                return ("seq", ((b, ("prim", name)),), b)
            raise Unread("parser " + name)
        return self.call(g, vals, f)

    def arg(self, ts, f, env):
        """an argument handed to a parser function"""
        if len(ts) == 1 and ts[0][0] == "str":
            return ("lit", unquote(ts[0][1]))
        if ts[0][1] == "&":
            return self.arg(ts[1:], f, env)
        names = [t for k, t in ts if k == "id"]
        if len(ts) == 1 and ts[0][0] == "id" or all(t == "::" or k == "id" for k, t in ts):
            n = ts[-1][1]
            if n in env:
                return env[n]
            g = self.src.find(n, f.file, f)
            if g:
                return ("fnref", g, f)
            if n in PRIMS:
                b = fresh()
                return ("parser", ("seq", ((b, ("prim", n)),), b))
        if ts[0][1] == "|":
            return ("parser", self.closure(ts, f, env))
        try:
            return Values(self, f.file, f, env).read(ts)
        except Unread:
            raise Unread("argument " + " ".join(names))

    def closure(self, ts, f, env):
        e = 1
        while ts[e][1] != "|":
            e += 1
        p = [x for x in ts[1:e] if x[0] == "id"]
        if not p:
            raise Unread("closure")
        body = ts[e + 1:]
        if body and body[0][1] == "{":
            body = body[1:-1]
        return self.entry(body, f, env, p[0][1])

    def parser(self, ts, f, env, inp=None):
        """a parser expression inside a macro"""
        if not ts:
            raise Unread("empty parser")
        if ts[0][1] == "|":
            return self.closure(ts, f, env)
        i = 0
        while i + 2 < len(ts) and ts[i + 1][1] == "::" and ts[i + 2][0] == "id":
            i += 2
        name = ts[i][1]
        if i + 1 < len(ts) and ts[i + 1][1] == "!" and i + 2 < len(ts):
            e = close(ts, i + 2)
            if e != len(ts) - 1:
                raise Unread("rest of a parser: " + " ".join(t for _, t in ts[e + 1:e + 5]))
            return self.macro(name, ts[i + 3:e], f, env, inp)
        if i == len(ts) - 1 or ts[i + 1][1] == "::":
            return self.named_call(name, [], f, env)
        if ts[i + 1][1] == "(":
            e = close(ts, i + 1)
            if e == len(ts) - 1:
                return self.named_call(name, [a for a in split(ts[i + 2:e], ",") if a], f, env)
        raise Unread("parser " + " ".join(t for _, t in ts[:6]))

    def leaf(self, *node):
        b = fresh()
        return ("seq", ((b, node),), b)

    def text(self, ts, env):
        if len(ts) == 1 and ts[0][0] == "str":
            return unquote(ts[0][1])
        ts = [x for x in ts if x[1] not in ("&",)]
        if len(ts) == 1 and ts[0][0] == "str":
            return unquote(ts[0][1])
        if len(ts) == 1 and ts[0][1] in env and env[ts[0][1]][0] == "lit":
            return env[ts[0][1]][1]
        if len(ts) >= 2 and ts[0][0] == "str":
            return unquote(ts[0][1])
        raise Unread("literal " + " ".join(t for _, t in ts[:4]))

    def pred(self, ts, f, env):
        v = Values(self, f.file, f, env).read(ts)
        return self.lam(v, f)

    def lam(self, v, f, n=1):
        """a function value applied to a fresh argument: (argument, result)"""
        b = fresh()
        if v[0] == "lam" or v[0] == "name":
            return ("lam", (b,), Values(self, f.file, f, {}).apply(v, [b]))
        return v

    def macro(self, name, ts, f, env, inp=None):
        P = lambda t: self.parser(t, f, env, inp)
        A = [a for a in split(ts, ",")]
        while A and not A[-1]:
            A.pop()
        if name == "do_parse":
            return self.do_parse(ts, f, env, inp)
        if name == "alt" or name == "alt_complete":
            alts = []
            for a in split(ts, "|"):
                h = split(a, "=")
                arrow = [n for n, x in enumerate(a) if x[1] == "=>"]
                top = split(a, "=>")
                if len(top) == 2:
                    body = top[1][1:-1] if top[1][0][1] == "{" else top[1]
                    alts.append(self.mapped(P(top[0]), Values(self, f.file, f, env).read(body), f))
                elif len(top) == 1:
                    alts.append(P(a))
                else:
                    raise Unread("alt")
            return self.leaf("alt", tuple(alts) if name == "alt" else tuple(self.leaf("complete", x) for x in alts))
        if name in ("tag", "tag_s", "char"):
            return self.leaf("tag", unquote(ts[0][1]) if ts[0][0] == "chr" else self.text(ts, env))
        if name in ("take_while", "take_while_s", "take_while1", "take_while1_s", "take_till", "take_till_s", "take_till1"):
            v = self.pred(ts, f, env)
            if "till" in name:
                v = ("lam", v[1], neg(v[2])) if v[0] == "lam" else ("unknown", "till")
            return self.leaf("while1" if "1" in name else "while", v)
        if name in ("is_not", "is_a", "is_not_s", "is_a_s", "one_of", "none_of", "take_until", "take_until_s", "take_until_and_consume"):
            t = self.text(ts, env)
            if f.bytes and not name.startswith("take"):
                # single bytes are compared: a longer character stands for each of its bytes
                t = "".join(x if x < "\x80" else "".join(chr(0xf700 + b) for b in x.encode()) for x in t)
            return self.leaf(name.replace("_s", "") if name.endswith("_s") else name, t if name.startswith("take") else "".join(sorted(set(t))))
        if name in ("opt", "complete", "many0", "many1", "not", "peek", "recognize"):
            p = P(ts)
            if name == "complete" and len(p[1]) == 1 and p[1][0][1][0] == "complete":
                return p
            return self.leaf(name, p)
        if name in ("eof",):
            return self.leaf("eof")
        if name in ("take", "take_s"):
            return self.leaf("take", " ".join(t for _, t in ts))
        if name in ("rest",):
            return self.leaf("prim", "rest")
        if name in ("map", "map_res", "map_opt"):
            p = P(A[0])
            v = Values(self, f.file, f, env).read(sum(([("p", ",")] + a for a in A[1:]), [])[1:])
            return self.mapped(p, v, f, {"map": None, "map_res": "res", "map_opt": "resopt"}[name])
        if name == "value":
            if len(A) == 1:
                return ("seq", (), Values(self, f.file, f, env).read(A[0]))
            p = P(A[1])
            return ("seq", p[1], Values(self, f.file, f, env).read(A[0]))
        if name == "expr_res" or name == "expr_opt":
            b = fresh()
            return ("seq", ((b, ("res" if name == "expr_res" else "resopt", Values(self, f.file, f, env).read(ts))),), b)
        if name in ("delimited", "preceded", "terminated", "pair", "tuple", "separated_pair", "sep_pair"):
            ps = [P(a) for a in A]
            steps = tuple(x for p in ps for x in p[1])
            pick = {"delimited": 1, "preceded": 1, "terminated": 0}.get(name)
            if pick is not None:
                val = ps[pick][2]
            elif name in ("separated_pair",):
                val = ("tuple", (ps[0][2], ps[2][2]))
            else:
                val = ("tuple", tuple(p[2] for p in ps))
            return ("seq", steps, val)
        if name in ("separated_list", "separated_nonempty_list", "separated_list_complete", "separated_nonempty_list_complete"):
            return self.leaf("sep1" if "nonempty" in name else "sep0", "complete" in name, P(A[0]), P(A[1]))
        if name in ("count_fixed", "count"):
            p = P(A[-2])
            n = A[-1]
            if len(n) == 1 and n[0][0] == "num" and name == "count_fixed":
                steps, vals = (), ()
                for _ in range(int(n[0][1])):
                    q = copy(p)
                    steps += q[1]
                    vals += (q[2],)
                return ("seq", steps, ("tuple", vals))
            return self.leaf("count", p, " ".join(t for _, t in n))
        if name == "escaped":
            return self.leaf("escaped", P(A[0]), unquote(A[1][0][1]), P(A[2]))
        if name in ("call", "apply"):
            if A[0][0][1] == "|":
                return self.closure(ts, f, env)
            return self.parser(A[0], f, env) if len(A) == 1 else self.named_call(A[0][-1][1], A[1:], f, env)
        if name in ("ws", "sp"):
            raise Unread("macro " + name)
        raise Unread("macro " + name)

    def mapped(self, p, v, f, how=None):
        w = Values(self, f.file, f, {}).apply(v, [p[2]])
        if how is None:
            return ("seq", p[1], w)
        b = fresh()
        return ("seq", p[1] + ((b, (how, w)),), b)

    def do_parse(self, ts, f, env, inp):
        steps = ()
        env = dict(env)
        parts = split(ts, ">>")
        for s in parts[:-1]:
            if len(s) > 2 and s[0][0] == "id" and s[1][1] == ":":
                p = self.parser(s[2:], f, env, inp)
                env[s[0][1]] = p[2]
            else:
                p = self.parser(s, f, env, inp)
            steps += p[1]
        v = parts[-1]
        if not (v and v[0][1] == "(" and close(v, 0) == len(v) - 1):
            raise Unread("value of do_parse")
        return ("seq", steps, Values(self, f.file, f, env).read(v))


def copy(p):
    """the same parser with fresh binders"""
    env = {}
    steps = []
    for b, s in p[1]:
        n = fresh()
        steps.append((n, subst(s, env)))
        env[b] = n
    return ("seq", tuple(steps), subst(p[2], env))


def neg(v):
    if v[0] == "op" and v[1] == "!":
        return v[2]
    if v[0] == "op" and v[1] in ("==", "!="):
        return ("op", "!=" if v[1] == "==" else "==") + v[2:]
    return ("op", "!", v)


# ---------------------------------------------------------------- normal form
def first(p):
    """(positive set of first characters or None, negative set): what a parser can start with; None if unknown"""
    for b, s in p[1]:
        if s[0] == "tag" and s[1]:
            return ("in", frozenset(s[1][0]))
        if s[0] == "is_not":
            return ("out", frozenset(s[1]))
        if s[0] in ("one_of", "is_a"):
            return ("in", frozenset(s[1]))
        if s[0] == "eof":
            return ("end", frozenset())
        if s[0] in ("complete",):
            return first(s[1])
        if s[0] == "prim" and s[1] == "digit":
            return ("in", frozenset("0123456789"))
        if s[0] in ("res", "resopt"):
            continue
        return None
    return None


def disjoint(a, b):
    if a is None or b is None:
        return False
    if a[0] == "end" or b[0] == "end":
        return a[0] != b[0]
    if a[0] == "in" and b[0] == "in":
        return not a[1] & b[1]
    if a[0] == "out" and b[0] == "in":
        return b[1] <= a[1]
    if a[0] == "in" and b[0] == "out":
        return a[1] <= b[1]
    return False


def tags_only(p):
    return len(p[1]) == 1 and p[1][0][1][0] == "tag"


def normal(p):
    """numbering by position; unordered alternatives sorted; checks moved to where their input is known"""
    steps = []
    for b, s in p[1]:
        n = inner(s)
        if steps and n == ("ws",) and steps[-1][1] == ("ws",):
            continue
        steps.append((b, n))
    # a check is done as soon as everything it needs is there
    out = []
    for b, s in steps:
        if s[0] in ("res", "resopt"):
            need = bound(s, set())
            pos = max([n + 1 for n, (c, _) in enumerate(out) if c in need] or [0])
            while pos < len(out) and out[pos][1][0] in ("res", "resopt") and repr(num(out[pos][1], out)) < repr(num(s, out)):
                pos += 1
            out.insert(pos, (b, s))
        else:
            out.append((b, s))
    used = bound(p[2], set())
    for b, s in out:
        bound(s, used)
    names = {b: ("$", n) for n, (b, _) in enumerate(out)}
    lam = {}
    return ("seq", tuple((names[b] if b in used else None, alpha(subst((s[0], value(s[1])) if s[0] in ("res", "resopt") else s, names), names)) for b, s in out),
            alpha(subst(value(p[2]), names), names))


def num(s, out):
    return subst(s, {b: ("$", n) for n, (b, _) in enumerate(out)})


def alpha(v, names, depth=0):
    """number the arguments of function values"""
    if isinstance(v, tuple):
        if v and v[0] == "lam" and not isinstance(v[1], int):
            env = {}
            flat = []

            def go(p):
                if p[0] == "b":
                    flat.append(p)
                else:
                    for q in p[1]:
                        go(q)
            for p in v[1]:
                go(p)
            for n, p in enumerate(flat):
                env[p] = ("x", depth + n)
            return ("lam", len(flat), alpha(subst(v[2], env), names, depth + len(flat)))
        return tuple(alpha(x, names, depth) for x in v)
    return v


SPACES = [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
SAMPLE = [chr(x) for x in sorted(set(range(0x250)) | set(SPACES) | {0x2192, 0x4e00, 0x1f600})]
BOOLS = {"is_space": lambda c: c in " \t", "is_whitespace": lambda c: ord(c) in SPACES, "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
         "is_digit": lambda c: c in "0123456789", "is_ascii_digit": lambda c: c in "0123456789", "is_alphabetic": str.isalpha, "is_alphanumeric": str.isalnum,
         "is_ascii_alphabetic": lambda c: c < "\x80" and c.isalpha(), "is_ascii_alphanumeric": lambda c: c < "\x80" and c.isalnum(), "is_ascii": lambda c: c < "\x80"}


class NoSet(Exception):
    pass


def holds(v, x, c):
    """the value of a predicate over one character"""
    if v == x:
        return c
    if v[0] == "lit" and isinstance(v[1], str):
        return v[1] if len(v[1]) == 1 or not v[1].isdigit() else chr(int(v[1]))
    if v[0] == "as":
        return holds(v[1], x, c)
    if v == ("name", "true") or v == ("name", "false"):
        return v[1] == "true"
    if v[0] == "op":
        a = [holds(y, x, c) for y in v[2:]]
        if v[1] == "!":
            return not a[0]
        f = {"&&": lambda: a[0] and a[1], "||": lambda: a[0] or a[1], "==": lambda: a[0] == a[1], "!=": lambda: a[0] != a[1], "<": lambda: a[0] < a[1],
             "<=": lambda: a[0] <= a[1]}.get(v[1])
        if f:
            return f()
    if v[0] == "if":
        return holds(v[2] if holds(v[1], x, c) else v[3], x, c)
    if v[0] == "call" and v[1] in BOOLS and len(v[2]) == 1:
        return bool(BOOLS[v[1]](holds(v[2][0], x, c)))
    if v[0] == "call" and v[1] == "contains" and len(v[2]) == 2:
        return holds(v[2][1], x, c) in (v[2][0][1] if v[2][0][0] == "lit" else "".join(holds(y, x, c) for y in v[2][0][1]))
    raise NoSet(v)


def charset(lam):
    """(are these the excluded characters, characters) of a predicate"""
    x = lam[1][0]
    try:
        vs = {c: holds(lam[2], x, c) for c in SAMPLE}
    except (NoSet, TypeError, ValueError):
        return None
    if any(v not in (True, False) for v in vs.values()):
        return None
    out = vs["\u4e00"]
    return out, "".join(c for c in SAMPLE if vs[c] != out)


def inner(s):
    if s[0] in ("while", "while1") and s[1][0] == "lam":
        cs = charset(s[1])
        if cs is None:
            return (s[0], ("opaque",), alpha(s[1], {}))
        out, chars = cs
        if s[0] == "while":
            if not out and chars == "\t ":
                return ("ws",)
            if out and not chars:
                return ("rest",)
            return ("while_not" if out else "while_in", chars)
        return ("is_not" if out else "is_a", chars)
    if s[0] == "prim" and s[1] == "rest":
        return ("rest",)
    if s[0] == "prim" and s[1] in ("digit", "space"):
        return ("is_a", "0123456789" if s[1] == "digit" else "\t ")
    if s[0] == "recognize":
        p = normal(s[1])
        whole = "'complete'" in repr(p)     # without `complete`, the end of the input makes it fail
        p = strip(p)
        # one or more characters, none of a set
        if whole and p[0] == "seq" and len(p[1]) == 1 and p[2] == ("$", 0) and p[1][0][1][0] == "many1":
            q = p[1][0][1][1]
            if q[0] == "seq" and q[1] and all(x[0] == "not" and tags_only(x[1]) and len(x[1][1][0][1][1]) == 1 for _, x in q[1][:-1]) and q[1][-1][1][0] == "none_of":
                return ("is_not", "".join(sorted(set(q[1][-1][1][1]) | {x[1][1][0][1][1] for _, x in q[1][:-1]})))
    if s[0] == "alt":
        ps = []
        for q in s[1]:
            n = normal(q)
            # nested alternatives
            if len(n[1]) == 1 and n[1][0][1][0] == "alt" and n[2] == ("$", 0):
                ps += [x for x in n[1][0][1][1]]
            else:
                ps.append(n)
        fs = [first(x) for x in ps]
        if all(disjoint(fs[i], fs[j]) or (tags_only(ps[i]) and tags_only(ps[j]) and not ps[i][1][0][1][1].startswith(ps[j][1][0][1][1])
                                          and not ps[j][1][0][1][1].startswith(ps[i][1][0][1][1]))
               for i in range(len(ps)) for j in range(i)):
            ps.sort(key=repr)
        return ("alt", tuple(ps))
    return tuple(normal(x) if isinstance(x, tuple) and x and x[0] == "seq" else x for x in s)


def strip(n):
    """without `complete` (which only matters for input that ends early)"""
    if isinstance(n, tuple):
        if n and n[0] == "seq" and len(n[1]) == 1 and n[1][0][1][0] == "complete" and n[2] == ("$", 0):
            return strip(n[1][0][1][1])
        return tuple(strip(x) for x in n)
    return n


def show(n):
    if not isinstance(n, tuple) or not n:
        return repr(n)
    k = n[0]
    if isinstance(k, tuple):
        return "(" + ", ".join(map(show, n)) + ")"
    if k == "seq":
        return "<" + " ".join(("%s:" % b[1] if b else "") + show(s) for b, s in n[1]) + " ⇒ " + show(n[2]) + ">"
    if k == "$":
        return "$%d" % n[1]
    if k == "x":
        return "x%d" % n[1]
    if k == "tag":
        return repr(n[1])
    if k == "ws":
        return "_"
    if k == "name":
        return n[1]
    if k == "lit":
        return repr(n[1])
    if k == "tuple":
        return "(" + ", ".join(map(show, n[1])) + ")"
    if k == "call":
        return "%s(%s)" % (n[1] if isinstance(n[1], str) else show(n[1]), ", ".join(map(show, n[2])))
    if k == "struct":
        return n[1] + "{" + ", ".join("%s: %s" % (a, show(b)) for a, b in n[2]) + "}"
    if k == "alt":
        return "(" + " | ".join(map(show, n[1])) + ")"
    return k + "(" + ", ".join(show(x) for x in n[1:]) + ")"


def differences(a, b, out, where=""):
    """the smallest parts in which two normal forms differ"""
    if a == b:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == "seq":
        if len(a[1]) == len(b[1]):
            n0 = len(out)
            for (x, s), (y, t) in zip(a[1], b[1]):
                if s != t:
                    differences(s, t, out, where)
                elif x != y:
                    out.append(("the result of %s is %sused" % (show(s), "" if y is None else "not "), s, t))
            if len(out) == n0 or a[2] != b[2]:
                differences(a[2], b[2], out, where)
            return
        i = 0
        while i < min(len(a[1]), len(b[1])) and a[1][i][1] == b[1][i][1]:
            i += 1
        j = 0
        while j < min(len(a[1]), len(b[1])) - i and kind(a[1][-1 - j][1]) == kind(b[1][-1 - j][1]):
            j += 1
        sa, sb = a[1][i:len(a[1]) - j], b[1][i:len(b[1]) - j]
        out.append(("%s instead of %s" % (" ".join(show(s) for _, s in sa) or "nothing", " ".join(show(s) for _, s in sb) or "nothing"), sa, sb))
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and a[0] in ("opt", "complete", "many0", "many1", "alt", "sep0", "sep1", "escaped", "not") and len(a) == len(b):
        if a[0] == "alt" and len(a[1]) != len(b[1]):
            out.append(("%s instead of %s" % (show(a), show(b)), a, b))
            return
        for x, y in (zip(a[1], b[1]) if a[0] == "alt" else zip(a[1:], b[1:])):
            differences(x, y, out, where)
        return
    out.append(("%s instead of %s" % (show(a), show(b)), a, b))


def completes(n, out):
    """the parts whose failure at the end of the input is taken as `no`"""
    if isinstance(n, tuple):
        if len(n) == 2 and n[0] in ("opt", "many0", "many1") and n[1][0] == "seq" and len(n[1][1]) == 1 and n[1][1][0][1][0] == "complete":
            out.add(strip(n))
        if n and n[0] == "complete":
            out.add(("complete", strip(n)))
        for x in n:
            completes(x, out)
    return out


def compare(code, spec):
    """the differences between two grammars"""
    out = []
    differences(strip(code), strip(spec), out)
    have = completes(code, set())
    for n in completes(spec, set()):
        if n[0] != "complete" and n not in have and not out:
            out.append(("the end of the input within %s makes the whole text unreadable" % show(n), n, n))
    return out


def kind(s):
    return s if s[0] not in ("res", "resopt") else s[0]


def reference(text):
    """a reference grammar: parsers written with the same combinators"""
    s = Sources("/", [])
    s.files["reference"] = Source(None, "reference", text)
    return s
