"""C29: parsers made by the parser generator accept exactly the language of their grammar."""
import contextlib, importlib.util, io, itertools, os, sys, tempfile, types
from mc.core import check, Skip

NODE = ("seq", "alt", "star", "plus", "opt", "tok", "rule")


class Bad(Exception):
    pass


def parse(syms):
    """Tree of a rule body (list of symbols), or Bad"""
    i = [0]

    def peek():
        return syms[i[0]] if i[0] < len(syms) else None

    def alt():
        out = [seq()]
        while peek() == "|":
            i[0] += 1
            out.append(seq())
        return out[0] if len(out) == 1 else ("alt", tuple(out))

    def seq():
        out = []
        while peek() not in (None, "|", ")", "]"):
            out.append(item())
        return out[0] if len(out) == 1 else ("seq", tuple(out))

    def item():
        s = peek()
        if s in ("*", "+", "?"):
            raise Bad
        i[0] += 1
        if s in ("(", "["):
            x = alt()
            if peek() != (")" if s == "(" else "]"):
                raise Bad
            i[0] += 1
            if s == "[":
                x = ("opt", x)
        elif s in ("A", "B"):
            x = ("rule", s)
        else:
            x = ("tok", s)
        t = peek()
        if t in ("*", "+", "?"):
            i[0] += 1
            x = ({"*": "star", "+": "plus", "?": "opt"}[t], x)
        return x

    t = alt()
    if peek() is not None:
        raise Bad
    return t


def trees(leaves, size, memo):
    """Every rule body of that many nodes, written out"""
    if size in memo:
        return memo[size]
    out = []
    if size == 1:
        out = [("tok" if x not in ("A", "B") else "rule", x) for x in leaves]
    else:
        for t in trees(leaves, size - 1, memo):
            if t[0] not in ("star", "plus", "opt"):
                out += [("star", t), ("plus", t), ("opt", t)]
        for k in range(1, size - 1):
            for x in trees(leaves, k, memo):
                for y in trees(leaves, size - 1 - k, memo):
                    for op in ("seq", "alt"):
                        if x[0] != op:      # written to the right
                            out.append((op, (x,) + (y[1] if y[0] == op else (y,))))
    memo[size] = out
    return out


def flat(t):
    """Symbols of a tree"""
    if t[0] in ("tok", "rule"):
        return [t[1]]
    if t[0] == "alt":
        out = flat(t[1][0])
        for x in t[1][1:]:
            out += ["|"] + flat(x)
        return out
    if t[0] == "seq":
        return [s for x in t[1] for s in (["("] + flat(x) + [")"] if x[0] == "alt" else flat(x))]
    mark = {"star": "*", "plus": "+", "opt": "?"}[t[0]]
    return flat(t[1]) + [mark] if t[1][0] in ("tok", "rule") else ["("] + flat(t[1]) + [")", mark]


def live(syms):
    """False if nothing that follows can make this a rule body"""
    depth, prev = [], None
    for s in syms:
        if s in ("(", "["):
            depth.append(s)
        elif s in (")", "]"):
            if not depth or depth.pop() != {")": "(", "]": "["}[s]:
                return False
        elif s in ("*", "+", "?") and prev in (None, "|", "(", "[", "*", "+", "?"):
            return False
        prev = s
    return True


class Gram(object):
    """rules: {name: tree}; the first is the start"""
    def __init__(self, rules):
        self.rules = rules
        self.null, self.fst, self.fol = {}, {n: set() for n in rules}, {n: set() for n in rules}
        self.fol["S"].add("$")
        while True:
            n0 = repr((self.null, self.fst, self.fol))
            for n, t in rules.items():
                self.null[n] = self.nul(t)
                self.fst[n] = self.first(t)
            for n, t in rules.items():
                self.follow(t, self.fol[n])
            if repr((self.null, self.fst, self.fol)) == n0:
                break
        self.ok = all(self.ll1(t, self.fol[n]) for n, t in rules.items()) and not any(self.left(n, n, set()) for n in rules)

    def nul(self, t):
        k = t[0]
        if k == "tok":
            return False
        if k == "rule":
            return self.null.get(t[1], False)
        if k == "seq":
            return all(self.nul(x) for x in t[1])
        if k == "alt":
            return any(self.nul(x) for x in t[1])
        if k == "plus":
            return self.nul(t[1])
        return True

    def first(self, t):
        k = t[0]
        if k == "tok":
            return {t[1]}
        if k == "rule":
            return set(self.fst[t[1]])
        if k == "alt":
            return set().union(*[self.first(x) for x in t[1]])
        if k == "seq":
            out = set()
            for x in t[1]:
                out |= self.first(x)
                if not self.nul(x):
                    break
            return out
        return self.first(t[1])

    def walk(self, t, fol):
        """every node with what can follow it"""
        yield t, fol
        k = t[0]
        if k == "alt":
            for x in t[1]:
                for y in self.walk(x, fol):
                    yield y
        elif k == "seq":
            for i, x in enumerate(t[1]):
                rest = ("seq", t[1][i + 1:])
                f = self.first(rest) | (fol if self.nul(rest) else set())
                for y in self.walk(x, f):
                    yield y
        elif k in ("star", "plus"):
            for y in self.walk(t[1], fol | self.first(t[1])):
                yield y
        elif k == "opt":
            for y in self.walk(t[1], fol):
                yield y

    def follow(self, t, fol):
        for x, f in self.walk(t, set(fol)):
            if x[0] == "rule":
                self.fol[x[1]] |= f

    def ll1(self, t, fol):
        for x, f in self.walk(t, fol):
            if x[0] == "alt":
                seen = set()
                for y in x[1]:
                    p = self.first(y) | (f if self.nul(y) else set())
                    if p & seen:
                        return False
                    seen |= p
            elif x[0] in ("star", "plus", "opt"):
                if self.nul(x[1]) or self.first(x[1]) & f:
                    return False
        return True

    def clash(self, t):
        """Two alternatives begin alike"""
        for x, f in self.walk(t, set()):
            if x[0] == "alt":
                seen = set()
                for y in x[1]:
                    if self.first(y) & seen:
                        return True
                    seen |= self.first(y)
        return False

    def vain(self, t):
        """Something that can be empty is repeated or optional"""
        return any(x[0] in ("star", "plus", "opt") and self.nul(x[1]) for x, f in self.walk(t, set()))

    def late(self, t):
        """An alternative that begins with a rule that can be empty, beside one that can be empty"""
        for x, f in self.walk(t, set()):
            if x[0] == "alt" and any(self.nul(y) for y in x[1]):
                if any(not self.nul(y) and self.prefix(y) for y in x[1]):
                    return True
        return False

    def prefix(self, t):
        """Something that can be empty, with a rule in it, begins this"""
        if self.nul(t):
            return any(x[0] == "rule" for x, f in self.walk(t, set()))
        if t[0] == "seq":
            for x in t[1]:
                if self.prefix(x):
                    return True
                if not self.nul(x):
                    return False
        if t[0] == "rule":
            return self.prefix(self.rules[t[1]])
        return t[0] in ("alt", "plus") and any(map(self.prefix, t[1] if t[0] == "alt" else (t[1],)))

    def heads(self, t):
        k = t[0]
        if k == "rule":
            return {t[1]}
        if k == "alt":
            return set().union(*[self.heads(x) for x in t[1]])
        if k == "seq":
            out = set()
            for x in t[1]:
                out |= self.heads(x)
                if not self.nul(x):
                    break
            return out
        return self.heads(t[1]) if k != "tok" else set()

    def left(self, n, target, seen):
        h = self.heads(self.rules[n])
        if target in h:
            return True
        return any(self.left(m, target, seen | {m}) for m in h - seen)

    def match(self, t, s, i):
        """every (end, trace) of a derivation of s[i:end]"""
        k = t[0]
        if k == "tok":
            if i < len(s) and s[i] == t[1]:
                yield i + 1, (t[1],)
        elif k == "rule":
            for j, tr in self.match(self.rules[t[1]], s, i):
                yield j, ("<" + t[1],) + tr + (t[1] + ">",)
        elif k == "alt":
            for x in t[1]:
                for r in self.match(x, s, i):
                    yield r
        elif k == "seq":
            if not t[1]:
                yield i, ()
            else:
                for j, tr in self.match(t[1][0], s, i):
                    for e, tr2 in self.match(("seq", t[1][1:]), s, j):
                        yield e, tr + tr2
        elif k == "opt":
            yield i, ()
            for r in self.match(t[1], s, i):
                yield r
        else:
            if k == "star":
                yield i, ()
            for j, tr in self.match(t[1], s, i):
                if j == i:
                    continue
                for e, tr2 in self.match(("star", t[1]), s, j):
                    yield e, tr + tr2

    def parse(self, s):
        for j, tr in self.match(self.rules["S"], s, 0):
            if j == len(s):
                return tr
        return None


def render(t, style, top=False):
    """Source of a tree with actions that record what was matched"""
    k = t[0]
    if k == "tok":
        n = t[1]
        if n == '"c"':
            return "%s {{ r.append('\"c\"') }}" % ("'c'" if style % 2 else '"c"')
        return "%s {{ r.append(%s) }}" % (n, n)
    if k == "rule":
        return "%s<<r>>" % t[1]
    if k == "seq":
        return " ".join(wrap(x, style) if x[0] == "alt" else render(x, style) for x in t[1]) or "( )"
    if k == "alt":
        return ("\n      | " if style % 2 else " | ").join(render(x, style) for x in t[1])
    if k == "opt" and style % 3 == 1:
        return "[ %s ]" % render(t[1], style)
    return wrap(t[1], style) + {"star": "*", "plus": "+", "opt": "?"}[k] + (" # repeated\n" if style % 5 == 3 else " ")


def wrap(t, style):
    return "( %s )" % render(t, style)


def run(ctx):
    ctx.level = "exploration"
    ctx.rule = ("a case is one rule body, written symbol by symbol, with a choice of the other rules: a body that is no grammar has to be refused; for an LL(1) grammar the "
                "generated parser is run on every text up to the bound and acceptance and the order of actions are compared with a derivation in the grammar")
    ctx.assumptions = ["grammars are LL(1) and not left-recursive (what other grammars do is not fixed)"]
    import CifFile
    top = os.path.dirname(os.path.realpath(CifFile.__file__))
    command = os.path.join(top, "yapps3", "yapps2.py")
    with open(command) as f:
        program = compile(f.read(), command, "exec")
    tmp = tempfile.mkdtemp(prefix="c29_")

    def generate(*args):
        """Run the command as the Makefile does (without its own doctests)"""
        old = sys.argv, list(sys.path), sys.modules.get("doctest")
        sys.argv = [command] + list(args)
        sys.path[:0] = [os.path.dirname(command), top]
        sys.modules["doctest"] = types.SimpleNamespace(testmod=lambda *a, **k: None)
        try:
            exec(program, {"__name__": "__main__", "__file__": command})
        finally:
            sys.argv, sys.path[:] = old[0], old[1]
            sys.modules.pop("doctest")
            if old[2]:
                sys.modules["doctest"] = old[2]

    def build(source, load=True):
        """Module made by the generator, None if it refused the grammar"""
        base = os.path.join(tmp, "g%d" % os.getpid())
        with open(base + ".g", "w") as f:
            f.write(source)
        if os.path.exists(base + ".py"):
            os.remove(base + ".py")
        e = io.StringIO()
        with contextlib.redirect_stderr(e), contextlib.redirect_stdout(e):
            try:
                generate(base + ".g", base + ".py")
            except (Exception, SystemExit) as x:
                e.write(repr(x))
        if not os.path.exists(base + ".py") or not load:
            return None, e.getvalue()
        with open(base + ".py") as f:
            code = f.read()
        m = types.ModuleType("CifFile.generated")
        m.__package__ = "CifFile"
        exec(compile(code, "<generated>", "exec"), m.__dict__)
        return m, e.getvalue()

    def accepts(m, text):
        e = io.StringIO()
        with contextlib.redirect_stderr(e), contextlib.redirect_stdout(e):
            r = m.parse("S", text)
        return r is not None, r

    HEAD = 'parser Gram:\n%s  ignore: "[ \\n]+"\n  token a: "a"\n  token b: "b"\n  token END: "$"\n'
    OTHERS = [{}, {"A": "b"}, {"A": 'b A | "c"'}, {"A": "[ b ]"}, {"A": "a * \"c\""}, {"A": "B a", "B": "b | "}, {"A": "( b A a ) ?"}]
    TEXTS = [s for n in range(0, 5 if ctx.quick else 6) for s in itertools.product(("a", "b", '"c"'), repeat=n)]

    def show(s, glue=" "):
        return glue.join(x.strip('"') for x in s)

    def bodies(alphabet, depth):
        stack = [()]
        while stack:
            s = stack.pop()
            yield s
            if len(s) < depth and live(s):
                stack.extend(s + (x,) for x in alphabet)

    def gen():
        for o in range(len(OTHERS)):
            alphabet = ["a", "b", '"c"', "|", "*", "+", "?", "(", ")", "[", "]"] if o == 0 else ["a", "b", "A", "|", "*", "?", "(", ")"]
            for body in bodies(alphabet, (4 if o == 0 else 4) if ctx.quick else 5):
                if o and "A" not in body:
                    continue
                yield (o, body)

    def gen_trees():
        for o in range(len(OTHERS)):
            memo = {}
            leaves = ["a", "b", '"c"'] if o == 0 else ["a", "b", "A"]
            for n in range(1, (7 if o == 0 else 6) + (0 if ctx.quick else 1)):
                for t in trees(leaves, n, memo):
                    body = tuple(flat(t))
                    if (not o or "A" in body) and len(body) > (4 if ctx.quick else 5):
                        yield (o, body)

    def fn(case, st):
        o, body = case
        try:
            tree = parse(list(body))
        except Bad:
            m, e = build(HEAD % "" + "  rule S: %s END\n" % " ".join(body))
            check(m is None, "malformed grammar accepted", lambda: "%r" % (body,))
            st["malformed grammars refused"] += 1
            return
        rules = {"S": tree}
        for n, b in OTHERS[o].items():
            rules[n] = parse(b.split())
        G = Gram(rules)
        if not G.ok:
            if any(G.left(n, n, set()) for n in rules):
                raise Skip()
            clash, vain = any(map(G.clash, rules.values())), any(map(G.vain, rules.values()))
            if not clash and not vain:
                raise Skip()
            src = HEAD % "" + "  rule S: ( %s ) END {{ return 1 }}\n" % " ".join(body) + "".join("  rule %s: %s\n" % (n, b) for n, b in OTHERS[o].items())
            m, e = build(src, False)
            check(not clash or "could be matched by more than one clause" in e, "no warning of clauses that begin alike", lambda: "%s: %s" % (src, e))
            check(not vain or "could be" in e or "may be empty" in e, "no warning of an empty repetition", lambda: "%s: %s" % (src, e))
            st["warnings"] += 1
            return
        REFUSE = "refuses what is in the language" + (" (a part that can be empty, with a rule in it, begins an alternative to the empty one)" if any(map(G.late, rules.values())) else "")
        flags = sum(map(ord, "".join(body))) % 2
        insens = '  option: "context-insensitive-scanner"\n' if flags else ""
        plain = HEAD % insens + "  rule S: ( %s ) END {{ return 1 }}\n" % " ".join(body) + "".join("  rule %s: %s\n" % (n, b) for n, b in OTHERS[o].items())
        m, e = build(plain)
        check(m is not None, "grammar refused", lambda: "%s: %s" % (plain, e))
        style = sum(map(ord, "".join(body)))
        full = HEAD % ("" if flags else '  option: "context-insensitive-scanner"\n')
        full = full.replace('  token END', '  token c: "d" # another\n  token END') if style % 2 else full
        rs = ["  rule S: {{ r = [] }} %s END {{ return r }}\n" % wrap(tree, style)]
        rs += ["  rule %s<<r>>: {{ r.append('<%s') }} %s {{ r.append('%s>') }}\n" % (n, n, wrap(t, style), n) for n, t in rules.items() if n != "S"]
        full += "".join(rs[::-1] if style % 2 else rs)
        m2, e2 = build("def helper(x):\n    return x\n\n%%\n" + full + "\n%%\nafter = helper(17)\n" if style % 3 == 0 else full)
        check(m2 is not None, "grammar refused", lambda: "%s: %s" % (full, e2))
        if style % 3 == 0:
            check(m2.after == 17, "the code around the grammar is lost", lambda: "%s" % full)
        for s in TEXTS:
            want = G.parse(s)
            got = accepts(m, show(s))[0]
            check(got == (want is not None), "accepts what is not in the language" if got else REFUSE, lambda: "%r by %s" % (s, plain))
            ok, trace = accepts(m2, show(s, " \n" if style % 2 else ""))
            check(ok == (want is not None), "accepts what is not in the language" if ok else REFUSE, lambda: "%r by %s" % (s, full))
            if ok:
                check(tuple(trace) == want, "wrong derivation", lambda: "%r by %s: %r instead of %r" % (s, full, trace, want))
            st["texts parsed"] += 1

    ctx.explore("grammars and texts", gen, fn)
    ctx.explore("deeper grammars", gen_trees, fn)
