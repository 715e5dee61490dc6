"""Reference syntax and semantics of dREL expressions and statements.

Written from the dREL language description (operator table, inclusive do loops,
list/table displays, slices, augmented assignments), not from the translator.
Nothing here uses the code under test.
"""
import math


class More(Exception):
    """the text is a viable beginning"""


class Dead(Exception):
    """no continuation is possible: the token at index k is wrong"""


class Domain(Exception):
    """the meaning is not defined (or not fixed) by the language"""


# ---------------------------------------------------------------- expressions
# tokens: (kind, text); kinds: num str id op  (op: text is the operator or bracket)
class P(object):
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) and self.t[self.i][0] == "op" else (
            None if self.i >= len(self.t) else self.t[self.i][0] + ":")

    def take(self):
        self.i += 1
        return self.t[self.i - 1]

    def need(self, what):
        if self.i >= len(self.t):
            raise More()
        if self.peek() != what:
            raise Dead()
        return self.take()

    def binary(self, sub, ops):
        e = sub()
        while self.peek() in ops:
            o = ops[self.take()[1]]
            e = ("bin", o, e, sub())
        return e

    def expr(self):
        return self.binary(self.and_, {"or": "or", "||": "or"})

    def and_(self):
        return self.binary(self.not_, {"and": "and", "&&": "and"})

    def not_(self):
        if self.peek() == "not":
            self.take()
            return ("not", self.not_())
        e = self.sum()
        p = self.peek()
        if p in ("<", ">", "<=", ">=", "==", "!=", "in"):
            self.take()
            return ("bin", p, e, self.sum())
        if p == "not":
            self.take()
            self.need("in")
            return ("bin", "not in", e, self.sum())
        return e

    def sum(self):
        return self.binary(self.prod, {"+": "+", "-": "-"})

    def prod(self):
        return self.binary(self.sign, {o: o for o in "*/^&|"})

    def sign(self):
        if self.peek() in ("+", "-"):
            o = self.take()[1]
            return ("sign", o, self.sign())
        return self.power()

    def power(self):
        e = self.primary()
        if self.peek() == "**":
            self.take()
            return ("bin", "**", e, self.sign())
        return e

    def primary(self):
        if self.i >= len(self.t):
            raise More()
        k, v = self.t[self.i][:2]
        if k == "num":
            e = ("num", self.take()[1])
        elif k == "str":
            e = ("str", self.take()[1])
        elif k == "id":
            self.take()
            e = ("id", v)
            if self.peek() == "(":
                self.take()
                args = []
                if self.peek() != ")":
                    args.append(self.expr())
                    while self.peek() == ",":
                        self.take()
                        args.append(self.expr())
                self.need(")")
                e = ("call", v, args)
        elif v == "(":
            self.take()
            if self.peek() == ")":
                self.take()
                e = ("tuple", [])
            else:
                items = self.items()
                self.need(")")
                e = items[0] if len(items) == 1 else ("tuple", items)
                e = ("group", e)
        elif v == "[":
            self.take()
            items = []
            if self.peek() != "]":
                items = self.items()
            self.need("]")
            e = ("list", items)
        elif v == "{":
            self.take()
            items = []
            if self.peek() != "}":
                items.append(self.pair())
                while self.peek() == ",":
                    self.take()
                    items.append(self.pair())
            self.need("}")
            e = ("table", items)
        elif v == "`":
            self.take()
            items = self.items()
            self.need("`")
            e = ("call", "Str", items)
        else:
            raise Dead()
        while self.peek() in ("[", "."):
            if self.take()[1] == ".":
                if self.i >= len(self.t):
                    raise More()
                if self.t[self.i][0] != "id":
                    raise Dead()
                e = ("attr", e, self.take()[1])
                continue
            subs = [self.sub()]
            while self.peek() == ",":
                self.take()
                subs.append(self.sub())
            self.need("]")
            e = ("sub", e, subs)
        return e

    def pair(self):
        if self.i >= len(self.t):
            raise More()
        if self.t[self.i][0] != "str":
            raise Dead()
        k = self.take()[1]
        self.need(":")
        return (k, self.expr())

    def items(self):
        out = [self.expr()]
        while self.peek() == ",":
            self.take()
            out.append(self.expr())
        return out

    def sub(self):
        """expression | [e] : [e] [ : e ]"""
        s = f = st = None
        if self.peek() != ":":
            s = self.expr()
            if self.peek() != ":":
                return s
        self.need(":")
        if self.i >= len(self.t):
            raise More()
        if self.peek() not in (":", ",", "]"):
            f = self.expr()
        if self.peek() == ":":
            self.take()
            st = self.expr()
        return ("slice", s, f, st)


def status(toks):
    """('ok', [expr, ...]) / ('more', None) / ('dead', None)"""
    p = P(toks)
    try:
        items = p.items()
    except More:
        return "more", None
    except Dead:
        return "dead", None
    if p.i < len(toks):
        return "dead", None
    return "ok", items


# ------------------------------------------------------------------ semantics
def isnum(v):
    return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


def vec(v):
    return isinstance(v, list) and len(v) > 0 and all(isnum(x) for x in v)


def mat(v):
    return isinstance(v, list) and len(v) > 1 and all(vec(x) for x in v) and len(set(map(len, v))) == 1 and len(v[0]) > 1


def big(v):
    if isnum(v):
        if isinstance(v, int):
            if abs(v) > 10 ** 15:
                raise Domain("size")
        elif not abs(v) < 1e200:
            raise Domain("size")
    return v


def dot(a, b):
    if len(a) != len(b):
        raise Domain("shape")
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def each(f, a, b):
    """elementwise with broadcasting of a number"""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            raise Domain("shape")
        return [each(f, x, y) for x, y in zip(a, b)]
    if isinstance(a, list):
        return [each(f, x, b) for x in a]
    if isinstance(b, list):
        return [each(f, a, y) for y in b]
    if not (isnum(a) and isnum(b)):
        raise Domain("type")
    return big(f(a, b))


def arith(op, a, b):
    if op == "+" and isinstance(a, str) and isinstance(b, str):
        return a + b
    for v in (a, b):
        if not (isnum(v) or vec(v) or mat(v)):
            raise Domain("type")
    if mat(a) != mat(b) and (vec(a) or vec(b)) and op != "*":
        raise Domain("shape")
    if op == "+":
        return each(lambda x, y: x + y, a, b)
    if op == "-":
        return each(lambda x, y: x - y, a, b)
    if op == "/":
        def div(x, y):
            if y == 0:
                raise Domain("zero")
            return x / y
        return each(div, a, b)
    if op == "*":
        if isnum(a) or isnum(b):
            return each(lambda x, y: x * y, a, b)
        if vec(a) and vec(b):
            return dot(a, b)
        if mat(a) and vec(b):
            return [dot(r, b) for r in a]
        if vec(a) and mat(b):
            return [dot(a, list(c)) for c in zip(*b)]
        return [[dot(r, list(c)) for c in zip(*b)] for r in a]
    raise AssertionError(op)


def power(a, b):
    if not (isnum(a) and isnum(b)) or isinstance(a, complex) or isinstance(b, complex):
        raise Domain("type")
    if a == 0 and b < 0:
        raise Domain("zero")
    if a < 0 and b != int(b):
        raise Domain("root of a negative number")
    if abs(a) > 1 and abs(b) * math.log10(abs(a)) > 12:
        raise Domain("size")
    return big(a ** b)


def binary(op, a, b):
    if op in ("+", "-", "*", "/"):
        return arith(op, a, b)
    if op == "**":
        return power(a, b)
    if op == "^":
        if not (vec(a) and vec(b) and len(a) == len(b) == 3):
            raise Domain("type")
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    if op in "&|" and len(op) == 1:
        if not (isinstance(a, int) and isinstance(b, int)) or isinstance(a, bool) or isinstance(b, bool):
            raise Domain("type")
        return a & b if op == "&" else a | b
    if op in ("and", "or"):
        if not (isinstance(a, bool) and isinstance(b, bool)):
            raise Domain("type")
        return (a and b) if op == "and" else (a or b)
    if op in ("==", "!="):
        if isnum(a) and isnum(b) or type(a) is type(b) and isinstance(a, (str, bool)):
            if isinstance(a, float) and isinstance(b, float) and a != b and abs(a - b) < 1e-9 * max(abs(a), abs(b)):
                raise Domain("rounding")
            return (a == b) == (op == "==")
        raise Domain("type")
    if op in ("<", ">", "<=", ">="):
        if isnum(a) and isnum(b) and not isinstance(a, complex) and not isinstance(b, complex) or isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        raise Domain("type")
    if op in ("in", "not in"):
        if isinstance(b, str) and isinstance(a, str) or isinstance(b, (list, tuple)) and not isinstance(a, (list, tuple, dict)) and all(
                isnum(x) == isnum(a) and isinstance(x, str) == isinstance(a, str) and not isinstance(x, (list, tuple, dict, bool)) for x in b):
            return (a in b) == (op == "in")
        raise Domain("type")
    raise AssertionError(op)


def ev(e, env):
    k = e[0]
    if k in ("num", "str"):
        return e[1]
    if k == "group":
        return ev(e[1], env)
    if k == "id":
        low = e[1].lower()
        if low == "pi":
            return math.pi
        if low == "twopi":
            return 2 * math.pi
        if e[1] not in env:
            raise Domain("name")
        return env[e[1]]
    if k == "bin":
        return binary(e[1], ev(e[2], env), ev(e[3], env))
    if k == "not":
        v = ev(e[1], env)
        if not isinstance(v, bool):
            raise Domain("type")
        return not v
    if k == "sign":
        v = ev(e[2], env)
        return arith("*", -1 if e[1] == "-" else 1, v)
    if k == "list":
        return [ev(x, env) for x in e[1]]
    if k == "tuple":
        return tuple(ev(x, env) for x in e[1])
    if k == "table":
        return dict((x, ev(v, env)) for x, v in e[1])
    if k == "sub":
        return index(ev(e[1], env), [("s",) + tuple(None if x is None else ev(x, env) for x in s[1:]) if s[0] == "slice" else ev(s, env)
                                     for s in e[2]])
    if k == "call":
        return call(e[1], [ev(x, env) for x in e[2]], env)
    raise Domain(k)


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def index(v, subs):
    s, rest = subs[0], subs[1:]
    if isinstance(v, dict):
        if rest or not isinstance(s, str) or s not in v:
            raise Domain("key")
        return v[s]
    if isinstance(v, tuple) and rest:
        raise Domain("tuple")
    if not isinstance(v, (list, str, tuple)):
        raise Domain("type")
    if isinstance(v, str) and rest:
        raise Domain("type")
    if isinstance(s, tuple) and s[:1] != ("s",):
        raise Domain("type")
    if isinstance(s, tuple):
        for x in s[1:]:
            if x is not None and not isint(x):
                raise Domain("type")
        if len(s) > 3 and s[3] == 0:
            raise Domain("step")
        part = v[slice(*(s[1:] or (None,)))]
        return [index(x, rest) for x in part] if rest else part
    if not isint(s) or not -len(v) <= s < len(v):
        raise Domain("index")
    return index(v[s], rest) if rest else v[s]


def call(name, args, env):
    f = name.lower()
    if name in env and callable(env[name]):
        return env[name](*args)
    if not args:
        if f == "list":
            return []
        if f == "table":
            return {}
        raise Domain("arguments")
    a = args[0]
    n = len(args)

    def num(*vs):
        for v in vs:
            if not isnum(v) or isinstance(v, complex):
                raise Domain("type")

    def one():
        if n != 1:
            raise Domain("arguments")
    if f == "list":
        if n == 1 and not isinstance(a, (list, tuple)):
            raise Domain("arguments")
        return list(a) if n == 1 else args
    if f == "array":
        one()
        if not (vec(a) or mat(a)):
            raise Domain("type")
        return a
    if f == "matrix":
        one()
        if not mat(a):
            raise Domain("type")
        return [[float(x) for x in r] for r in a]
    if f == "transpose":
        one()
        if not mat(a):
            raise Domain("type")
        return [list(c) for c in zip(*a)]
    if f == "len":
        one()
        if not isinstance(a, (list, str, dict, tuple)):
            raise Domain("type")
        return len(a)
    if f in ("abs", "magn"):
        one()
        if not isnum(a):
            raise Domain("type")
        return abs(a)
    if f == "atoi":
        one()
        if not isinstance(a, str) or not a.lstrip("+-").isdigit() or len(a) - len(a.lstrip("+-")) > 1:
            raise Domain("type")
        return int(a)
    if f == "float":
        one()
        num(a)
        return float(a)
    if f == "int":
        one()
        num(a)
        return int(a)
    if f == "str":
        one()
        if not (isint(a) or isinstance(a, str)):
            raise Domain("type")
        return str(a)
    if f == "upper":
        one()
        if not isinstance(a, str):
            raise Domain("type")
        return a.upper()
    if f == "norm":
        one()
        if not vec(a):
            raise Domain("type")
        return math.sqrt(sum(abs(x) ** 2 for x in a))
    if f in ("sqrt", "exp", "sind", "cosd", "tand", "asind", "acosd", "atand"):
        one()
        num(a)
        try:
            return {"sqrt": math.sqrt, "exp": math.exp, "sind": lambda x: math.sin(math.pi * x / 180), "cosd": lambda x: math.cos(math.pi * x / 180),
                    "tand": lambda x: math.tan(math.pi * x / 180), "asind": lambda x: 180 * math.asin(x) / math.pi,
                    "acosd": lambda x: 180 * math.acos(x) / math.pi, "atand": lambda x: 180 * math.atan(x) / math.pi}[f](a)
        except (ValueError, OverflowError):
            raise Domain("range")
    if f == "atan2d":
        if n != 2:
            raise Domain("arguments")
        num(*args)
        return 180 * math.atan2(*args) / math.pi
    if f == "mod":
        if n != 2:
            raise Domain("arguments")
        num(*args)
        if args[1] == 0:
            raise Domain("zero")
        r = math.fmod(args[0], args[1])
        if r and (r < 0) != (args[1] < 0):
            r += args[1]
        return int(r) if isint(a) and isint(args[1]) else r
    if f in ("max", "min"):
        vals = list(a) if n == 1 and isinstance(a, (list, tuple)) else args
        if not vals or n == 1 and isnum(a):
            raise Domain("arguments")
        num(*vals)
        r = vals[0]
        for v in vals:
            if (v > r) == (f == "max") and v != r:
                r = v
        return r
    if f == "complex":
        if n != 2:
            raise Domain("arguments")
        num(*args)
        return args[0] + 1j * args[1]
    if f == "expimag":
        one()
        num(a)
        return complex(math.cos(a), math.sin(a))
    if f in ("real", "imag"):
        one()
        if not isnum(a):
            raise Domain("type")
        return a.real if f == "real" else a.imag
    if f == "sort":
        one()
        if not isinstance(a, list) or not (all(isnum(x) and not isinstance(x, complex) for x in a) or all(isinstance(x, str) for x in a)):
            raise Domain("type")
        out = []
        for x in a:
            k = len(out)
            while k and out[k - 1] > x:
                k -= 1
            out.insert(k, x)
        return out
    if f == "strip":
        if n != 2 or not isinstance(a, list) or not isint(args[1]):
            raise Domain("arguments")
        return [index(x, [args[1]]) for x in a]
    raise Domain("function")


# ----------------------------------------------------------------- comparison
def plain(v):
    """what a calculated value is, without regard to the classes used to hold it"""
    t = type(v).__name__
    if isinstance(v, bool) or t in ("bool_", "bool"):
        return bool(v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if hasattr(v, "tolist"):
        return plain(v.tolist())
    return v


def same(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isnum(a) and isnum(b):
        return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)
    return type(a) is type(b) and a == b


# ----------------------------------------------------------------- statements
class Brk(Exception):
    pass


class Nxt(Exception):
    pass


class Fuel(Exception):
    pass


def run(stmts, env, fuel):
    for s in stmts:
        fuel[0] -= 1
        if fuel[0] < 0:
            raise Fuel()
        k = s[0]
        if k == "set":
            env[s[1]] = ev(s[2], env)
        elif k == "expr":
            ev(s[1], env)
        elif k == "print":
            env["__out__"].append(ev(s[1], env))
        elif k == "if":
            for c, body in s[1]:
                v = ev(c, env)
                if not isinstance(v, bool):
                    raise Domain("type")
                if v:
                    run(body, env, fuel)
                    break
            else:
                if s[2] is not None:
                    run(s[2], env, fuel)
        elif k == "do":
            a, b, c = ev(s[2], env), ev(s[3], env), ev(s[4], env) if s[4] is not None else 1
            if not (isint(a) and isint(b) and isint(c)) or c == 0:
                raise Domain("type")
            i = a
            try:
                while (i <= b if c > 0 else i >= b):
                    env[s[1]] = i
                    try:
                        run(s[5], env, fuel)
                    except Nxt:
                        pass
                    i += c
            except Brk:
                pass
        elif k == "for":
            vals = ev(s[2], env)
            try:
                for v in list(vals):
                    if len(s[1]) == 1:
                        env[s[1][0]] = v
                    else:
                        for n, x in zip(s[1], v):
                            env[n] = x
                    try:
                        run(s[3], env, fuel)
                    except Nxt:
                        pass
            except Brk:
                pass
        elif k == "repeat":
            try:
                while True:
                    fuel[0] -= 1
                    if fuel[0] < 0:
                        raise Fuel()
                    try:
                        run(s[1], env, fuel)
                    except Nxt:
                        pass
            except Brk:
                pass
        elif k == "break":
            raise Brk()
        elif k == "next":
            raise Nxt()
        else:
            raise AssertionError(k)
