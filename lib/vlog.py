"""Verilog designs of circuit_synthesis as gate-level netlists: a small elaborator for the
synthesizable subset those designs are written in (modules, parameters, generate, functions,
assign, always).  What it does not know is refused with Unsupported."""
import re
import netlist as NL


class Unsupported(Exception):
    pass


class Fault(Exception):
    """What no tool could make a circuit of."""


TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|\(\*(?!\)).*?\*\)|`timescale[^\n]*
 |(?P<num>\d*\s*'[sS]?[bBoOdDhH]\s*[0-9a-fA-F_xXzZ?]+|\d[\d_]*)|(?P<id>[A-Za-z_$][\w$]*|`\w+)|(?P<str>"[^"\n]*")
 |(?P<op><<<|>>>|===|!==|\*\*|<<|>>|<=|>=|==|!=|&&|\|\||~\^|\^~|~&|~\||\+:|-:|@\*|[-+*/%<>=!~&|^?:;,.(){}\[\]@\#])""", re.S | re.X)
BASE = {"b": 2, "o": 8, "d": 10, "h": 16}
PREC = [("||",), ("&&",), ("|",), ("^", "~^", "^~"), ("&",), ("==", "!=", "===", "!=="), ("<", "<=", ">", ">="), ("<<", ">>", "<<<", ">>>"), ("+", "-"), ("*", "/", "%"), ("**",)]


COMMENT = re.compile(r"//[^\n]*|/\*.*?\*/", re.S)


def preprocess(text):
    """Macros with and without arguments; everything else that starts with ` is left to the lexer."""
    text = COMMENT.sub(" ", text).replace("\\\n", " ")
    macros, out = {}, []

    def expand(l, depth=0):
        if depth > 50:
            raise Unsupported("macros too deep")
        r, i = "", 0
        for m in iter(lambda: re.compile(r"`(\w+)").search(l, i), None):
            r += l[i:m.start()]
            i = m.end()
            if m.group(1) not in macros:
                r += m.group()
                continue
            args, body = macros[m.group(1)]
            if args is not None:
                j = l.index("(", i)
                n, cur, given = 0, "", []
                for k in range(j, len(l)):
                    c = l[k]
                    if c in "([{":
                        n += 1
                    if c in ")]}":
                        n -= 1
                    if n == 0 or (n == 1 and c == ","):
                        given.append(cur)
                        cur = ""
                        if n == 0:
                            break
                    elif k > j:
                        cur += c
                i = k + 1
                if len(given) != len(args):
                    raise Unsupported("arguments of `" + m.group(1))
                d = dict(zip(args, (expand(g.strip(), depth + 1) for g in given)))
                body = re.sub(r"\b[A-Za-z_]\w*\b", lambda q: d.get(q.group(), q.group()), body)
            r += expand(body, depth + 1)
        return r + l[i:]
    for l in text.split("\n"):
        m = re.match(r"\s*`define\s+(\w+)(\(([^)]*)\))?(.*)$", l)
        if m:
            macros[m.group(1)] = ([a.strip() for a in m.group(3).split(",")] if m.group(2) else None, m.group(4).strip())
        elif re.match(r"\s*`undef\s+(\w+)", l):
            macros.pop(re.match(r"\s*`undef\s+(\w+)", l).group(1), None)
        else:
            out.append(expand(l))
    return "\n".join(out)


def lex(text):
    text = preprocess(text) if "`" in text else text
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Unsupported("character %r" % text[i])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group().strip()))
    return out


class Parser:
    def __init__(self, text):
        self.t, self.i = lex(text), 0
        self.modules, self.sgn = {}, set()
        while self.i < len(self.t):
            if self.peek() == "module":
                self.module()
            else:
                raise Unsupported("outside of a module: " + self.peek())

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else ""

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def at(self, *w):
        if self.peek() in w:
            return self.next()

    def need(self, w):
        if self.next() != w:
            raise Unsupported("%r instead of %r near token %d" % (self.t[self.i - 1][1], w, self.i))

    def name(self):
        k, v = self.t[self.i]
        if k != "id":
            raise Unsupported("%r is no name" % v)
        self.i += 1
        return v

    # --- expressions
    def expr(self):
        c = self.binary(0)
        if self.at("?"):
            a = self.expr()
            self.need(":")
            return ("?", c, a, self.expr())
        return c

    def binary(self, l):
        if l == len(PREC):
            return self.unary()
        a = self.binary(l + 1)
        while self.peek() in PREC[l]:
            o = self.next()
            a = ("bin", o, a, self.binary(l + 1))
        return a

    def unary(self):
        if self.peek() in ("~", "!", "-", "+", "&", "|", "^", "~&", "~|", "~^", "^~"):
            o = self.next()
            return ("un", o, self.unary())
        return self.primary()

    def primary(self):
        k, v = self.t[self.i]
        if v == "(":
            self.next()
            e = self.expr()
            self.need(")")
            return e
        if v == "{":
            self.next()
            e = self.expr()
            if self.at("{"):
                p = [self.expr()]
                while self.at(","):
                    p.append(self.expr())
                self.need("}")
                self.need("}")
                return ("rep", e, ("cat", p))
            p = [e]
            while self.at(","):
                p.append(self.expr())
            self.need("}")
            return ("cat", p)
        if k == "num":
            self.next()
            m = re.match(r"(\d*)\s*'([sS]?)(.)\s*(.*)$", v)
            if not m:
                return ("num", int(v.replace("_", "")), None)
            if m.group(2) or re.search("[xXzZ?]", m.group(4)):
                raise Unsupported(v)
            return ("num", int(m.group(4).replace("_", ""), BASE[m.group(3).lower()]), int(m.group(1)) if m.group(1) else None)
        if k != "id":
            raise Unsupported("%r in an expression" % v)
        self.next()
        if self.at("("):
            a = []
            while not self.at(")"):
                a.append(self.expr())
                self.at(",")
            return ("call", v, a)
        e = ("id", v)
        while self.at("["):
            a = self.expr()
            if self.at(":"):
                e = ("rng", e, a, self.expr())
            elif self.peek() in ("+:", "-:"):
                o = self.next()
                e = ("part", e, a, self.expr(), o)
            else:
                e = ("idx", e, a)
            self.need("]")
        return e

    # --- modules
    def range(self):
        if self.at("["):
            a = self.expr()
            self.need(":")
            b = self.expr()
            self.need("]")
            return a, b

    def params(self, local=False):      # after the keyword
        self.at("integer")
        if self.signed():
            raise Unsupported("signed parameter")
        r = self.range()
        out = []
        while True:
            n = self.name()
            self.need("=")
            out.append(("param", n, self.expr(), local, r))
            if self.peek() == "," and self.peek(1) not in ("parameter",):
                self.next()
                continue
            return out

    def signed(self):
        return bool(self.at("signed"))

    def module(self):
        self.next()
        name = self.name()
        ports, items = [], []
        if self.at("#"):
            self.need("(")
            while not self.at(")"):
                self.at("parameter")
                items += self.params()
                self.at(",")
        if self.at("("):
            d = None
            while not self.at(")"):
                if self.peek() in ("input", "output"):
                    d = self.next()
                    self.at("wire", "reg")
                    sg = self.signed()
                    r = self.range()
                n = self.name()
                ports.append(n)
                if d:
                    if sg:
                        self.sgn.add(n)
                    items.append(("decl", d, r, [(n, [], None)]))
                self.at(",")
        self.need(";")
        while not self.at("endmodule"):
            items += self.item()
        if name in self.modules:
            raise Unsupported("module %s twice" % name)
        self.modules[name] = (ports, items)

    def item(self):
        v = self.peek()
        if v in ("generate", "endgenerate", ";"):
            self.next()
            return []
        if v in ("parameter", "localparam"):
            self.next()
            p = self.params(v == "localparam")
            self.need(";")
            return p
        if v in ("input", "output", "wire", "reg", "integer", "genvar"):
            return [self.decl()]
        if v == "assign":
            self.next()
            out = []
            while True:
                l = self.primary()
                self.need("=")
                out.append(("assign", l, self.expr()))
                if not self.at(","):
                    break
            self.need(";")
            return out
        if v == "always":
            self.next()
            if self.at("@*"):
                s = None
            else:
                self.need("@")
                if self.at("*"):
                    s = None
                else:
                    self.need("(")
                    s = []
                    while not self.at(")"):
                        e = self.at("posedge", "negedge")
                        if self.at("*"):
                            continue
                        s.append((e, self.name()))
                        self.at("or", ",")
            return [("always", s or None, self.stmt())]
        if v == "for":
            self.next()
            self.need("(")
            self.at("genvar")
            i = self.name()
            self.need("=")
            a = self.expr()
            self.need(";")
            c = self.expr()
            self.need(";")
            j = self.name()
            self.need("=")
            s = self.expr()
            self.need(")")
            if i != j:
                raise Unsupported("for with two variables")
            return [("for", i, a, c, s, self.block())]
        if v == "if":
            self.next()
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.block()
            return [("if", c, a, self.block() if self.at("else") else [])]
        if v == "begin":
            return [("block", self.block())]
        if v == "function":
            self.next()
            self.at("automatic")
            r = "integer" if self.at("integer") else self.range()
            n = self.name()
            args, dec = [], []
            if self.at("("):
                raise Unsupported("function ports")
            self.need(";")
            while self.peek() in ("input", "reg", "integer"):
                d = self.decl()
                (args if d[1] == "input" else dec).append(d)
            s = self.stmt()
            self.need("endfunction")
            return [("function", n, r, args, dec, s)]
        if v == "initial" or v.startswith("`"):
            raise Unsupported(v)
        return self.instance()

    def decl(self):
        d = self.next()
        self.at("wire", "reg")
        sg = self.signed()
        r = self.range()
        out = []
        while True:
            n = self.name()
            if sg:
                self.sgn.add(n)
            dims = []
            while self.peek() == "[":
                dims.append(self.range())
            out.append((n, dims, self.expr() if self.at("=") else None))
            if not self.at(","):
                break
        self.need(";")
        return ("decl", d, r, out)

    def block(self):
        if self.at("begin"):
            if self.at(":"):
                self.name()
            out = []
            while not self.at("end"):
                out += self.item()
            return out
        return self.item()

    def assoc(self):
        out = []
        self.need("(")
        while not self.at(")"):
            if self.at("."):
                n = self.name()
                self.need("(")
                e = None
                if not self.at(")"):
                    e = self.expr()
                    self.need(")")
                out.append((n, e))
            else:
                out.append((None, self.expr()))
            self.at(",")
        return out

    def instance(self):
        m = self.name()
        p = self.assoc() if self.at("#") else []
        out = []
        while True:
            n = self.name()
            out.append(("inst", m, p, n, self.assoc()))
            if not self.at(","):
                break
        self.need(";")
        return out

    def stmt(self):
        v = self.peek()
        if self.at(";"):
            return ("seq", [])
        if self.at("begin"):
            if self.at(":"):
                self.name()
            out = []
            while not self.at("end"):
                out.append(self.stmt())
            return ("seq", out)
        if self.at("if"):
            self.need("(")
            c = self.expr()
            self.need(")")
            a = self.stmt()
            return ("if", c, a, self.stmt() if self.at("else") else ("seq", []))
        if self.at("for", ):
            self.need("(")
            i = self.simple()
            self.need(";")
            c = self.expr()
            self.need(";")
            s = self.simple()
            self.need(")")
            return ("for", i, c, s, self.stmt())
        if self.at("while"):
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("for", ("seq", []), c, ("seq", []), self.stmt())
        if self.at("case"):
            self.need("(")
            e = self.expr()
            self.need(")")
            arms, dflt = [], ("seq", [])
            while not self.at("endcase"):
                if self.at("default"):
                    self.at(":")
                    dflt = self.stmt()
                else:
                    ks = [self.expr()]
                    while self.at(","):
                        ks.append(self.expr())
                    self.need(":")
                    arms.append((ks, self.stmt()))
            s = dflt
            for ks, b in reversed(arms):
                c = ("bin", "==", e, ks[0])
                for k in ks[1:]:
                    c = ("bin", "||", c, ("bin", "==", e, k))
                s = ("if", c, b, s)
            return s
        s = self.simple()
        self.need(";")
        return s

    def simple(self):
        l = self.primary()
        o = self.next()
        if o not in ("=", "<="):
            raise Unsupported("statement with %r" % o)
        return ("set", o == "<=", l, self.expr())


# --- elaboration

class Net:
    __slots__ = ("drv", "name")

    def __init__(self, name):
        self.drv, self.name = None, name


class Up(int):
    """The upper end of an ascending range."""


class Sig:
    def __init__(self, width, lo, dims, down, name):
        self.width, self.lo, self.dims, self.down = width, lo, dims, down
        n = 1
        for a, b in dims:
            n *= b - a + 1
        if n * width > 400000:
            raise Unsupported("%s is too large" % name)
        self.bits = [[Net(name) for _ in range(width)] for _ in range(n)]


class Scope:
    def __init__(self, up=None):
        self.up, self.const, self.sig, self.fun = up, {}, {}, up.fun if up else {}

    def find(self, n):
        s = self
        while s:
            if n in s.const:
                return s.const[n]
            if n in s.sig:
                return s.sig[n]
            s = s.up
        raise Fault("%s is not declared" % n)


NONCONST = object()


class Design:
    def __init__(self, texts):
        self.modules, self.sgn = {}, set()          # names of signed signals: only used as they are
        for t in texts:
            p = Parser(t)
            self.modules.update(p.modules)
            self.sgn |= p.sgn
        self.later, self.dffs, self.hash = [], [], {}
        self.depth = 0

    # gates, with constants folded
    def gate(self, op, *a):
        key = (op,) + tuple(x if isinstance(x, int) else id(x) for x in a)
        if key not in self.hash:
            self.hash[key] = (op,) + a
        return self.hash[key]

    def NOT(self, a):
        return 1 - a if isinstance(a, int) else self.gate("NOT", a)

    def AND(self, a, b):
        if isinstance(a, int):
            return b if a else 0
        if isinstance(b, int):
            return a if b else 0
        return a if a is b else self.gate("AND", a, b)

    def OR(self, a, b):
        if isinstance(a, int):
            return 1 if a else b
        if isinstance(b, int):
            return 1 if b else a
        return a if a is b else self.gate("OR", a, b)

    def XOR(self, a, b):
        if isinstance(a, int):
            return self.NOT(b) if a else b
        if isinstance(b, int):
            return self.NOT(a) if b else a
        return 0 if a is b else self.gate("XOR", a, b)

    def MUX(self, s, a, b):             # b if s
        if isinstance(s, int):
            return b if s else a
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return a
        return self.gate("MUX", a, b, s)

    def add(self, a, b, c):
        out = []
        for x, y in zip(a, b):
            p = self.XOR(x, y)
            out.append(self.XOR(p, c))
            c = self.OR(self.AND(x, y), self.AND(p, c))
        return out, c

    def less(self, a, b):               # a < b
        return self.NOT(self.add(a, [self.NOT(x) for x in b], 1)[1])

    def any(self, a):
        r = 0
        for x in a:
            r = self.OR(r, x)
        return r

    # constant expressions
    def const(self, e, sc):
        k = e[0]
        if k == "num":
            return e[1]
        if k == "id":
            v = sc.find(e[1])
            return v if isinstance(v, int) else NONCONST
        if k == "un":
            a = self.const(e[2], sc)
            if a is NONCONST or e[1] not in "-+!":
                return NONCONST
            return {"-": -a, "+": a, "!": int(not a)}[e[1]]
        if k == "bin":
            a, b = self.const(e[2], sc), self.const(e[3], sc)
            if a is NONCONST or b is NONCONST:
                return NONCONST
            o = e[1]
            if o in "/%":
                if b == 0:
                    raise Unsupported("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if o == "/" else a - q * b
            if o == "**":
                return a ** b if b >= 0 else 0
            if o in ("<<", ">>", "<<<", ">>>") and b < 0:
                raise Unsupported("shift")
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "<<": lambda: a << b, ">>": lambda: a >> b, "<": lambda: a < b, "<=": lambda: a <= b,
                 ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b, "&&": lambda: bool(a and b), "||": lambda: bool(a or b),
                 "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}.get(o)
            return int(f()) if f else NONCONST
        if k == "?":
            c = self.const(e[1], sc)
            return NONCONST if c is NONCONST else self.const(e[2] if c else e[3], sc)
        if k == "call":
            a = [self.const(x, sc) for x in e[2]]
            if NONCONST in a:
                return NONCONST
            if e[1] == "$clog2":
                return (a[0] - 1).bit_length() if a[0] > 0 else 0
            if e[1] in sc.fun:
                n, r, args, dec, s = sc.fun[e[1]]
                if r != "integer":
                    return NONCONST
                env = {n: 0}
                names = [x[0] for d in args for x in d[3]]
                env.update(zip(names, a))
                for d in dec:
                    env.update((x[0], 0) for x in d[3])
                loc = Scope(sc)
                loc.const = env
                return env[n] if self.crun(s, loc, [0]) else NONCONST
            raise Unsupported("function " + e[1])
        return NONCONST

    def crun(self, s, sc, steps):       # a constant function's statement
        steps[0] += 1
        if steps[0] > 100000:
            raise Unsupported("function does not end")
        if s[0] == "seq":
            return all([self.crun(x, sc, steps) for x in s[1]])
        if s[0] == "if":
            c = self.const(s[1], sc)
            return c is not NONCONST and self.crun(s[2] if c else s[3], sc, steps)
        if s[0] == "for":
            ok = self.crun(s[1], sc, steps)
            while ok:
                c = self.const(s[2], sc)
                if c is NONCONST:
                    return False
                if not c:
                    return True
                ok = self.crun(s[4], sc, steps) and self.crun(s[3], sc, steps)
            return ok
        if s[0] == "set" and s[2][0] == "id" and s[2][1] in sc.const:
            v = self.const(s[3], sc)
            sc.const[s[2][1]] = v
            return v is not NONCONST
        return False

    def num(self, e, sc):
        v = self.const(e, sc)
        if v is NONCONST:
            raise Unsupported("not constant: %r" % (e,))
        return v

    # signals
    def sel(self, e, sc):
        """A signal expression: (sig, [(guard, element)], lo, width): dynamic element or bit selects are guarded alternatives."""
        path = []
        while e[0] in ("idx", "rng", "part"):
            path.insert(0, e)
            e = e[1]
        s = sc.find(e[1])
        return s, path

    def width(self, e, sc):
        k = e[0]
        if k == "num":
            return e[2] or 32
        if k == "id":
            s = sc.find(e[1])
            if isinstance(s, int):
                return 32
            if s.dims:
                raise Unsupported("array %s as a value" % e[1])
            return s.width
        if k in ("idx", "rng", "part"):
            s, path = self.sel(e, sc)
            if isinstance(s, int):
                s = Sig(32, 0, [], True, "const")
            path = path[len(s.dims):]
            w = s.width
            for p in path:
                w = 1 if p[0] == "idx" else abs(self.num(p[2], sc) - self.num(p[3], sc)) + 1 if p[0] == "rng" else self.num(p[3], sc)
            return w
        if k == "cat":
            return sum(self.width(x, sc) for x in e[1])
        if k == "rep":
            return max(0, self.num(e[1], sc)) * self.width(e[2], sc)
        if k == "un":
            return self.width(e[2], sc) if e[1] in ("~", "-", "+") else 1
        if k == "bin":
            if e[1] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "===", "!=="):
                return 1
            if e[1] in ("<<", ">>", "<<<", ">>>", "**"):
                return self.width(e[2], sc)
            return max(self.width(e[2], sc), self.width(e[3], sc))
        if k == "?":
            return max(self.width(e[2], sc), self.width(e[3], sc))
        if k == "call":
            if e[1] in sc.fun and sc.fun[e[1]][1] not in ("integer", None):
                a, b = sc.fun[e[1]][1]
                return abs(self.num(a, sc) - self.num(b, sc)) + 1
            return 1 if e[1] in sc.fun and sc.fun[e[1]][1] is None else 32
        raise Unsupported("width of %r" % (e,))

    def fit(self, b, w):
        return (b + [0] * w)[:w]

    def bits(self, e, sc, w, env):
        """The value of an expression in a context of w bits."""
        k = e[0]
        if k in ("num", "bin", "un", "?", "call") or k == "id" and isinstance(sc.find(e[1]), int):
            try:
                v = self.const(e, sc)
            except (Unsupported, Fault):
                v = NONCONST
            if v is not NONCONST:
                own = self.width(e, sc)
                return [(v >> i) & 1 for i in range(w)] if v >= 0 or w <= 32 or k != "num" else self.fit([(v >> i) & 1 for i in range(own)], w)
        if k in ("id", "idx", "rng", "part"):
            if k == "id" and e[1] in self.sgn and w > self.width(e, sc):
                raise Unsupported("sign extension of " + e[1])
            return self.fit(self.read(e, sc, env), w)
        if k == "cat":
            out = []
            for x in reversed(e[1]):
                out += self.bits(x, sc, self.width(x, sc), env)
            return self.fit(out, w)
        if k == "rep":
            return self.fit(self.bits(e[2], sc, self.width(e[2], sc), env) * max(0, self.num(e[1], sc)), w)
        if k == "un":
            o = e[1]
            if o in ("~", "-", "+"):
                a = self.bits(e[2], sc, w, env)
                if o == "+":
                    return a
                a = [self.NOT(x) for x in a]
                return a if o == "~" else self.add(a, [0] * w, 1)[0]
            a = self.bits(e[2], sc, self.width(e[2], sc), env)
            r = a[0] if a else 0
            for x in a[1:]:
                r = (self.AND if o in ("&", "~&") else self.OR if o in ("|", "~|", "!") else self.XOR)(r, x)
            return self.fit([self.NOT(r) if o in ("~&", "~|", "~^", "^~", "!") else r], w)
        if k == "?":
            c = self.any(self.bits(e[1], sc, self.width(e[1], sc), env))
            return [self.MUX(c, y, x) for x, y in zip(self.bits(e[2], sc, w, env), self.bits(e[3], sc, w, env))]
        if k == "bin":
            o = e[1]
            if o in ("<", ">", "<=", ">=", ">>>", "/", "%") and any(x[0] == "id" and x[1] in self.sgn for x in e[2:]):
                raise Unsupported("signed " + o)
            if o in ("&&", "||"):
                a, b = (self.any(self.bits(x, sc, self.width(x, sc), env)) for x in e[2:])
                return self.fit([(self.AND if o == "&&" else self.OR)(a, b)], w)
            if o in ("<", ">", "<=", ">=", "==", "!=", "===", "!=="):
                n = max(self.width(e[2], sc), self.width(e[3], sc))
                a, b = self.bits(e[2], sc, n, env), self.bits(e[3], sc, n, env)
                if o in ("<", ">="):
                    r = self.less(a, b)
                elif o in (">", "<="):
                    r = self.less(b, a)
                else:
                    r = self.any([self.XOR(x, y) for x, y in zip(a, b)])
                return self.fit([self.NOT(r) if o in (">=", "<=", "==", "===") else r], w)
            if o in ("<<", ">>", "<<<", ">>>"):
                a = self.bits(e[2], sc, w, env)
                n = self.const(e[3], sc)
                left = o in ("<<", "<<<")
                if n is not NONCONST:
                    n = min(n, w)
                    return [0] * n + a[:w - n] if left else a[n:] + [0] * n
                for i, s in enumerate(self.bits(e[3], sc, self.width(e[3], sc), env)):
                    n = min(1 << i, w)
                    a = [self.MUX(s, x, y) for x, y in zip(a, [0] * n + a[:w - n] if left else a[n:] + [0] * n)]
                return a
            a, b = self.bits(e[2], sc, w, env), self.bits(e[3], sc, w, env)
            if o == "+":
                return self.add(a, b, 0)[0]
            if o == "-":
                return self.add(a, [self.NOT(x) for x in b], 1)[0]
            if o == "*":
                acc = [0] * w
                for i, s in enumerate(b):
                    acc = acc[:i] + self.add(acc[i:], [self.AND(x, s) for x in a[:w - i]], 0)[0]
                return acc
            f = {"&": self.AND, "|": self.OR, "^": self.XOR}.get(o)
            if f:
                return [f(x, y) for x, y in zip(a, b)]
            if o in ("~^", "^~"):
                return [self.NOT(self.XOR(x, y)) for x, y in zip(a, b)]
            raise Unsupported("operator " + o)
        if k == "call" and e[1] in sc.fun:
            return self.fit(self.call(e, sc, env), w)
        raise Unsupported("expression %r" % (e[0],))

    def call(self, e, sc, env):
        n, r, args, dec, s = sc.fun[e[1]]
        self.depth += 1
        if self.depth > 50:
            raise Unsupported("recursion")
        top = sc
        while top.up:
            top = top.up
        loc = Scope(top)
        loc.sig[n] = Sig(*self.size(r, loc), [], True, n) if r not in (None, "integer") else Sig(32 if r else 1, 0, [], True, n)
        env = dict(env)
        i = 0
        for d in args + dec:
            for x, dims, _ in d[3]:
                loc.sig[x] = Sig(*self.size(d[2], loc), [(min(self.num(p, loc), self.num(q, loc)), max(self.num(p, loc), self.num(q, loc))) for p, q in dims], True, x) if d[1] != "integer" else Sig(32, 0, [], True, x)
                if d[1] == "input":
                    g = loc.sig[x]
                    for net, b in zip(g.bits[0], self.bits(e[2][i], sc, max(g.width, self.width(e[2][i], sc)), env)):
                        env[net] = b
                    i += 1
        nb = {}
        self.exec(s, loc, env, nb)
        self.depth -= 1
        return [env.get(b, b) for b in loc.sig[n].bits[0]]

    def size(self, r, sc):
        if r is None:
            return 1, 0
        a, b = self.num(r[0], sc), self.num(r[1], sc)
        if a < b:
            if b == 0 and a == -1:
                return 0, 0
            return b - a + 1, Up(b)
        return a - b + 1, b

    def index(self, e, sc, env):
        """An index: ("k", n) or ("v", bits)"""
        v = self.const(e, sc)
        if v is not NONCONST:
            return v, None
        b = [env.get(x, x) if isinstance(x, Net) else x for x in self.bits(e, sc, self.width(e, sc), env)]
        if all(isinstance(x, int) for x in b):
            return sum(x << i for i, x in enumerate(b)), None
        return None, b

    def equal(self, b, n):
        if n >> len(b):
            return 0
        r = 1
        for i, x in enumerate(b):
            r = self.AND(r, x if (n >> i) & 1 else self.NOT(x))
        return r

    def places(self, e, sc, env):
        """What an lvalue or a signal expression means: [(guard, nets)], exactly one guard true (or none: out of range)."""
        s, path = self.sel(e, sc)
        if isinstance(s, int):
            raise Unsupported("bit of a constant")
        if len(path) < len(s.dims):
            raise Unsupported("array as a value")
        alts = [(1, 0)]
        for (a, b), p in zip(s.dims, path):
            if p[0] != "idx":
                raise Unsupported("slice of an array")
            n = b - a + 1
            v, var = self.index(p[2], sc, env)
            if var is None:
                alts = [(g, k * n + v - a) for g, k in alts if a <= v <= b]
            else:
                alts = [(self.AND(g, self.equal(var, i)), k * n + i - a) for g, k in alts for i in range(a, b + 1)]
        out = [(g, s.bits[k]) for g, k in alts]
        lo = s.lo
        for p in path[len(s.dims):]:
            new = []
            if isinstance(lo, Up):          # bit i of [0:n] is n - i places from the right
                v, var = self.index(p[2], sc, env) if p[0] == "idx" else (None, 1)
                if var is not None or not 0 <= lo - v < s.width:
                    raise Unsupported("part of an ascending range")
                out = [(g, [n[lo - v]]) for g, n in out]
                lo = 0
                continue
            if p[0] == "rng":
                h, l = self.num(p[2], sc) - lo, self.num(p[3], sc) - lo
                if h < l - 1 or l < 0 or h >= s.width:
                    raise Unsupported("range [%d:%d] of %s" % (h, l, e))
                out = [(g, n[l:h + 1]) for g, n in out]
                continue
            w = 1 if p[0] == "idx" else self.num(p[3], sc)
            v, var = self.index(p[2], sc, env)
            for g, n in out:
                for i in ([v] if var is None else range(lo, lo + len(n))):
                    l = i - lo - (w - 1 if p[0] == "part" and p[4] == "-:" else 0)
                    if l < 0 or l + w > len(n):
                        if var is None:
                            raise Unsupported("bit %d of %s" % (i, e))
                        continue
                    new.append((g if var is None else self.AND(g, self.equal(var, i)), n[l:l + w]))
            out = new
            lo = 0
        return [(g, n) for g, n in out if not (isinstance(g, int) and g == 0)]

    def read(self, e, sc, env):
        w = self.width(e, sc)
        alts = self.places(e, sc, env)
        if len(alts) == 1 and alts[0][0] == 1 and isinstance(alts[0][0], int):
            return [env.get(b, b) for b in alts[0][1]]
        out = [0] * w
        for g, n in alts:
            out = [self.OR(o, self.AND(g, env.get(b, b))) for o, b in zip(out, n)]
        return out

    # statements of processes
    def exec(self, s, sc, env, nb, steps=None):
        k = s[0]
        if k == "seq":
            for x in s[1]:
                self.exec(x, sc, env, nb)
        elif k == "if":
            c = self.any([env.get(x, x) if isinstance(x, Net) else x for x in self.bits(s[1], sc, self.width(s[1], sc), env)])
            if isinstance(c, int):
                return self.exec(s[2] if c else s[3], sc, env, nb)
            e1, n1, e2, n2 = dict(env), dict(nb), dict(env), dict(nb)
            self.exec(s[2], sc, e1, n1)
            self.exec(s[3], sc, e2, n2)
            for d, a, b in ((env, e1, e2), (nb, n1, n2)):
                for n in list(a) + [x for x in b if x not in a]:
                    x, y = a.get(n, n), b.get(n, n)
                    if x is not y or n not in d:
                        d[n] = self.MUX(c, y, x)
        elif k == "for":
            self.exec(s[1], sc, env, nb)
            for _ in range(100000):
                c = self.any(self.bits(s[2], sc, self.width(s[2], sc), env))
                if not isinstance(c, int):
                    raise Unsupported("loop without constant bounds")
                if not c:
                    return
                self.exec(s[4], sc, env, nb)
                self.exec(s[3], sc, env, nb)
            raise Unsupported("endless loop")
        elif k == "set":
            w = self.lwidth(s[2], sc)
            v = self.bits(s[3], sc, max(w, self.width(s[3], sc)), env)
            self.store(s[2], v, sc, env, nb if s[1] else env)
        else:
            raise Unsupported(k)

    def lwidth(self, l, sc):
        return sum(self.lwidth(x, sc) for x in l[1]) if l[0] == "cat" else self.width(l, sc)

    def store(self, l, v, sc, env, to):
        if l[0] == "cat":
            for x in reversed(l[1]):
                w = self.lwidth(x, sc)
                self.store(x, v[:w], sc, env, to)
                v = v[w:]
            return
        for g, nets in self.places(l, sc, env):
            for n, b in zip(nets, v):
                to[n] = self.MUX(g, to.get(n, n), b)

    # modules
    def instantiate(self, name, over, up=None):
        if name not in self.modules:
            raise Unsupported("module %s is not known" % name)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("instances too deep")
        ports, items = self.modules[name]
        sc = Scope()
        dirs = {}
        order = [i[1] for i in items if i[0] == "param" and not i[3]]
        vals = {}
        for k, (n, v) in enumerate(over):
            vals[n or order[k]] = v
        self.decls(items, sc, vals, dirs, set(ports))
        self.depth -= 1
        return sc, ports, dirs

    def decls(self, items, sc, vals, dirs, ports):
        for i in items:
            if i[0] == "function":
                sc.fun = dict(sc.fun)
                sc.fun[i[1]] = i[1:]
        for i in items:
            k = i[0]
            if k == "param":
                sc.const[i[1]] = vals[i[1]] if i[1] in vals and not i[3] else self.num(i[2], sc)
            elif k == "decl":
                _, d, r, names = i
                if d == "genvar":
                    continue
                for n, dims, init in names:
                    if d in ("input", "output"):
                        dirs[n] = d
                    if n in sc.sig:
                        continue        # output o; reg o;
                    w, lo = (32, 0) if d == "integer" else self.size(r, sc)
                    ds = []
                    for a, b in dims:
                        a, b = self.num(a, sc), self.num(b, sc)
                        ds.append((min(a, b), max(a, b)))
                    sc.sig[n] = Sig(w, lo, ds, True, n)
                    if init is not None:
                        self.later.append(lambda n=n, init=init, sc=sc: self.assign(("id", n), init, sc))
            elif k == "assign":
                self.later.append(lambda i=i, sc=sc: self.assign(i[1], i[2], sc))
            elif k == "always":
                self.later.append(lambda i=i, sc=sc: self.process(i[1], i[2], sc))
            elif k == "inst":
                over = [(n, self.num(e, sc)) for n, e in i[2]]
                child, cports, cdirs = self.instantiate(i[1], over)
                self.later.append(lambda i=i, sc=sc, c=child, p=cports, d=cdirs: self.connect(i[4], sc, c, p, d))
            elif k == "for":
                v = self.num(i[2], sc)
                for _ in range(100000):
                    b = Scope(sc)
                    b.const[i[1]] = v
                    if not self.num(i[3], b):
                        break
                    self.decls(i[5], b, {}, dirs, ports)
                    v = self.num(i[4], b)
                else:
                    raise Unsupported("endless generate")
            elif k == "if":
                self.decls(i[2] if self.num(i[1], sc) else i[3], Scope(sc), {}, dirs, ports)
            elif k == "block":
                self.decls(i[1], Scope(sc), {}, dirs, ports)

    def drive(self, net, b):
        if net.drv is not None:
            raise Fault("%s has two drivers" % net.name)
        net.drv = b

    def lnets(self, l, sc):
        if l[0] == "cat":
            return [n for x in reversed(l[1]) for n in self.lnets(x, sc)]
        p = self.places(l, sc, {})
        if len(p) != 1 or p[0][0] != 1:
            raise Unsupported("assignment to a varying place")
        return p[0][1]

    def implicit(self, e, sc):
        """A name that is first used where something drives it is a net of one bit."""
        if e and e[0] == "id":
            try:
                sc.find(e[1])
            except Fault:
                sc.sig[e[1]] = Sig(1, 0, [], True, e[1])

    def assign(self, l, e, sc):
        self.implicit(l, sc)
        nets = self.lnets(l, sc)
        for n, b in zip(nets, self.bits(e, sc, max(len(nets), self.width(e, sc)), {})):
            self.drive(n, b)

    def connect(self, assoc, sc, child, ports, dirs):
        for k, (n, e) in enumerate(assoc):
            if n is None:
                n = ports[k]
            if n not in dirs:
                raise Fault("%s is no port" % n)
            if e is None:
                continue
            s = child.sig[n]
            self.implicit(e, sc)
            if dirs[n] == "input":
                for net, b in zip(s.bits[0], self.bits(e, sc, max(s.width, self.width(e, sc)), {})):
                    self.drive(net, b)
            else:
                nets = self.lnets(e, sc)
                for net, b in zip(nets, s.bits[0] + [0] * len(nets)):
                    self.drive(net, b)

    def process(self, sens, body, sc):
        edges = sens and any(e for e, _ in sens)
        env, nb = {}, {}
        if not edges:
            self.exec(body, sc, env, nb)
            env.update(nb)
            for n, b in env.items():
                if n.name and not self.local(n, sc):
                    self.drive(n, b)
            return
        while body[0] == "seq" and len(body[1]) == 1:
            body = body[1][0]
        init = {}
        if len(sens) == 2:
            rst = [x for x in sens if body[0] == "if" and body[1] == ("id", x[1])]
            if not rst or any(e != "posedge" for e, _ in sens):
                raise Unsupported("process without plain reset")
            e1 = {}
            self.exec(body[2], sc, e1, init)
            init.update(e1)
            body = body[3]
        elif len(sens) != 1 or sens[0][0] != "posedge":
            raise Unsupported("edges")
        self.exec(body, sc, env, nb)
        env.update(nb)
        for n in list(env) + [x for x in init if x not in env]:
            if not self.local(n, sc):
                q = ["DFF", env.get(n, n), init.get(n, 0)]
                self.dffs.append(q)
                self.drive(n, q)

    def local(self, n, sc):
        while sc:
            for s in sc.sig.values():
                if n.name in sc.sig and sc.sig[n.name] is s and any(n in x for x in s.bits[:1]) and s.width == 32 and n.drv is None and self.isint(n.name, sc):
                    return True
            sc = sc.up
        return False

    def isint(self, name, sc):
        return name in getattr(self, "integers", ())

    # the whole
    def netlist(self, top, over):
        """(netlist, inputs [(port, width)], outputs [(port, width)]).  Ports with TinyGarble's own names keep them;
        the other inputs are concatenated to g_input and the outputs to o, in order of declaration."""
        self.integers = {n for p, items in self.modules.values() for i in items if i[0] == "decl" and i[1] == "integer" for n, _, _ in i[3]}
        sc, ports, dirs = self.instantiate(top, list(over.items()))
        for f in self.later:
            f()
        ins = [p for p in ports if dirs[p] == "input" and p not in ("clk", "rst", "clock", "reset")]
        outs = [p for p in ports if dirs[p] == "output"]
        own = [p for p in ins if p in NL.PORTS]
        rest = [p for p in ins if p not in NL.PORTS]
        if rest and "g_input" in own:
            raise Unsupported("inputs beside g_input")
        w = {}
        name = {}
        for p in own:
            w[p] = sc.sig[p].width
        if rest:
            w["g_input"] = sum(sc.sig[p].width for p in rest)
        for p in own:
            for k, n in enumerate(sc.sig[p].bits[0]):
                name[n] = NL.bit(p, k, w[p])
        k = 0
        for p in rest:
            for n in sc.sig[p].bits[0]:
                name[n] = NL.bit("g_input", k, w["g_input"])
                k += 1
        for p in ("clk", "rst", "clock", "reset"):
            if p in dirs:
                for n in sc.sig[p].bits[0]:
                    n.drv = 0           # no reset while running
        obits = [n for p in outs for n in sc.sig[p].bits[0]]
        cells, done, undriven = [], {}, []

        def resolve(b):
            chain = 0
            while isinstance(b, Net) and b not in name and b.drv is not None:
                b = b.drv
                chain += 1
                if chain > 100000:
                    raise Unsupported("nets in a circle")
            return b

        def nm(b):                      # the net of a bit that is done
            if isinstance(b, int):
                return "1'b%d" % b
            if isinstance(b, Net):
                if b not in name:
                    name[b] = "undriven%d" % len(undriven)
                    undriven.append(name[b])
                return name[b]
            return done[id(b)]
        keep = []
        count = [0]

        def visit(b):
            stack = [resolve(b)]
            onpath = set()
            while stack:
                b = stack[-1]
                if isinstance(b, (int, Net)) or id(b) in done:
                    stack.pop()
                    continue
                if isinstance(b, list):         # a flip-flop: its input is visited later
                    count[0] += 1
                    done[id(b)] = "q%d" % count[0]
                    keep.append(b)
                    stack.pop()
                    continue
                a = [resolve(x) for x in b[1:]]
                todo = [x for x in a if not isinstance(x, (int, Net)) and id(x) not in done]
                if todo:
                    if id(b) in onpath:
                        raise Fault("a combinational loop")
                    onpath.add(id(b))
                    stack += todo
                    continue
                count[0] += 1
                if count[0] > 400000:
                    raise Unsupported("too large")
                done[id(b)] = "n%d" % count[0]
                cells.append((b[0], [nm(x) for x in a], [done[id(b)]]))
                stack.pop()
        for b in obits:
            visit(b)
        i = 0
        while i < len(keep):
            visit(keep[i][1])
            visit(keep[i][2])
            i += 1
        for q in keep:
            cells.append(("DFF", [nm(resolve(q[1])), nm(resolve(q[2]))], [done[id(q)]]))
        o = len(obits)
        assigns = [(NL.bit("o", k, o), nm(resolve(b))) for k, b in enumerate(obits)]
        if undriven:
            raise Fault("%d nets that nothing drives" % len(undriven))
        kw = {k: w.get(p, 0) for p, k in zip(NL.PORTS, NL.KEYS)}
        n = NL.netlist(cells, assigns, o=o, **kw)
        return n, [(p, sc.sig[p].width) for p in ins], [(p, sc.sig[p].width) for p in outs]


