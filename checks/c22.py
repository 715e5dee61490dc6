"""C22: dREL programs mean what the language says, in every layout and after any history."""
import io, itertools, sys
from mc.core import check, Skip, short
from checks import drelref as D

DIC = """#CIF2.0
data_TEST_DIC
_dictionary.title TEST_DIC
_dictionary.class Instance
_dictionary.version 0.1
_dictionary.ddl_conformance 3.11.04
save_test
_definition.id test
_definition.scope Category
_definition.class Head
_name.object_id test
_name.category_id test
save_
save_a
_definition.id a
_definition.scope Category
_definition.class Set
_name.object_id a
_name.category_id test
save_
save_a.b
_definition.id '_a.b'
_definition.scope Item
_definition.class Item
_name.object_id b
_name.category_id a
save_
save_c
_definition.id c
_definition.scope Category
_definition.class Set
_name.object_id c
_name.category_id test
save_
save_c.d
_definition.id '_c.d'
_definition.scope Item
_definition.class Item
_name.object_id d
_name.category_id c
save_
"""


def op(x):
    return ("op", x, x)


def num(v, text=None):
    return ("num", v, text or repr(v))


def st_(v, q='"'):
    return ("str", v, q + v + q)


def idt(n):
    return ("id", n, n)


def text(toks):
    return " ".join(t[2] for t in toks)


PREC = {"or": 1, "and": 2, "==": 4, "!=": 4, "<": 4, ">": 4, "<=": 4, ">=": 4, "in": 4, "not in": 4, "+": 5, "-": 5, "*": 6, "/": 6, "^": 6, "&": 6, "|": 6, "**": 8}


def show(e, full=False, top=True):
    """Source text of an expression with the fewest (or with all possible) parentheses."""
    k = e[0]

    def wrap(s, p, need):
        return "( %s )" % s if full or p < need else s

    def go(e):
        k = e[0]
        if k == "bin":
            o = e[1]
            p = PREC[o]
            l, r = go(e[2]), go(e[3])
            if p == 4:
                ln = rn = 5
            elif o == "**":
                ln, rn = 9, 7
            else:
                ln, rn = p, p + 1
            return wrap(l[0], l[1], ln) + " " + o + " " + wrap(r[0], r[1], rn), p
        if k == "sign":
            r = go(e[2])
            return e[1] + wrap(r[0], r[1], 7), 7
        if k == "not":
            r = go(e[1])
            return "not " + wrap(r[0], r[1], 3), 3
        if k == "num":
            return (repr(e[1]), 9)
        if k == "str":
            return ('"%s"' % e[1], 9)
        if k == "id":
            return e[1], 9
        if k == "list":
            return "[" + ",".join(show(x, full) for x in e[1]) + "]", 9
        if k == "tuple":
            return "(" + ",".join(show(x, full) for x in e[1]) + ")", 9
        if k == "call":
            return e[1] + "(" + ",".join(show(x, full) for x in e[2]) + ")", 9
        raise AssertionError(k)
    return go(e)[0]


def run(ctx):
    import CifFile, numpy
    from copy import copy
    from CifFile import StarList
    from CifFile.drel import drel_lex, drel_ast_yacc, py_from_ast, drel_runtime
    ctx.level = "exploration"
    ctx.rule = ("a case is one program text (or a sequence of them); non-trivial = accepted programs ran and their value was compared with the reference evaluator, "
                "and texts outside the language were refused")
    ctx.assumptions = ["numbers stay below 1e15; domain errors of the mathematics (division by zero, roots of negative numbers) are not decided",
                       "multi-line text values in programs are a documented limitation", "keywords are used in the spellings the lexer lists"]
    dic = CifFile.CifDic(io.StringIO(DIC), grammar="STAR2", do_minimum=True)

    def parse(t):
        return drel_ast_yacc.parser.parse(t + "\n", lexer=drel_lex.lexer)

    def compiled(t, target="_a.b"):
        f = py_from_ast.make_python_function(parse(t), "myfunc", target, have_sn=False, cif_dic=dic)
        return compile(f, "<drel>", "exec")

    def evaluate(t, block=None, out=None):
        ns = dict(drel_runtime=drel_runtime, StarList=StarList, numpy=numpy, copy=copy, CifFile=CifFile)
        exec(compiled(t), ns)
        if out is not None:
            so = sys.stdout
            sys.stdout = out
            try:
                return ns["myfunc"](block)
            finally:
                sys.stdout = so
        return ns["myfunc"](block)

    def refused(t):
        try:
            compiled(t)
        except Exception:
            return True
        return False

    def expect(t, want, st, key="value", block=None):
        try:
            got = evaluate(t, block)
        except Exception as e:
            check(False, key + ":refused", lambda: "%r raised %s instead of %s" % (t, repr(e)[:160], short(want)))
        got = D.plain(got)
        check(D.same(got, want), key, lambda: "%r gave %s instead of %s" % (t, short(repr(got)), short(repr(want))))
        st["values compared"] += 1

    # ---- every token sequence: accepted exactly when it is an expression, value right
    PRIMES = [2, 3, 5, 7, 11, 13, 17, 19]
    ENV = {"x": 3, "y": [[10, 20], [30, 40]], "s": "abc", "t": True}
    PRE = "x = 3\ny = [[10,20],[30,40]]\ns = 'abc'\nt = 1 == 1\n"

    def fix(seq):
        """N stands for a number that depends on the place"""
        return [num(PRIMES[i % 8]) if t == "N" else t for i, t in enumerate(seq)]

    def f_tokens(case, st):
        toks = fix(case)
        t = PRE + "_a.b = " + text(toks)
        s, items = D.status(toks)
        if s != "ok":
            check(refused(t), "accepted", lambda: "%r is not in the language but was accepted" % text(toks))
            st["refused"] += 1
            return
        try:
            want = [D.ev(e, dict(ENV)) for e in items]
            want = want[0] if len(want) == 1 else tuple(want)
        except D.Domain:
            try:
                parse(t)
            except Exception as e:
                check(False, "refused", lambda: "%r is in the language but was refused: %r" % (text(toks), e))
            st["accepted, value not decided"] += 1
            return
        expect(t, want, st)

    def grow(alphabet, depth, tail):
        """all viable prefixes, each with every next token; what is dead also with every short tail"""
        stack = [()]
        while stack:
            s = stack.pop()
            for a in alphabet:
                n = s + (a,)
                yield n
                if D.status(fix(n))[0] == "dead":
                    for k in tail:
                        yield n + k
                elif len(n) < depth:
                    stack.append(n)

    OPS = ["N", idt("x")] + [op(o) for o in ("+", "-", "*", "/", "**", "(", ")", "<", "==", "and", "or", "not", "in")]
    TAIL = [("N",), (op(")"),), (op("]"),), (op(")"), "N")]
    ctx.explore("operator sequences", lambda: grow(OPS, 5 if ctx.quick else 7, TAIL), f_tokens)
    OPS2 = ["N"] + [op(o) for o in ("(", ")", "<=", "&&", "||", "not")]
    ctx.explore("comparison and logic sequences", lambda: grow(OPS2, 6 if ctx.quick else 7, TAIL), f_tokens)
    BOX = ["N", idt("y"), idt("s"), op("["), op("]"), op("("), op(")"), op(","), op(":"), op("."), op("{"), op("}"), st_("k"), op("-")]
    ctx.explore("container sequences", lambda: grow(BOX, 5 if ctx.quick else 7, TAIL), f_tokens)
    SUB = ["N", op("["), op("]"), op(","), op(":"), op("-"), op("=")]

    def g_sub():
        z, o, t2 = num(0), num(1), num(2)
        alpha = [z, o, t2, op("]"), op(","), op(":"), op("-")]
        for base in (idt("y"), idt("s")):
            stack = [(base, op("["))]
            while stack:
                s = stack.pop()
                for a in alpha:
                    n = s + (a,)
                    yield n
                    q = D.status(list(n))[0]
                    if q == "more" and len(n) < (8 if ctx.quick else 10):
                        stack.append(n)
    ctx.explore("subscripts and slices", g_sub, f_tokens)

    # ---- every small expression tree, minimal and redundant parentheses
    def numeric(n, ops, unary):
        """numeric trees with n leaves, leaves left as None"""
        if n == 1:
            yield None
            if unary:
                yield ("sign", "-", None)
            return
        for k in range(1, n):
            for l in numeric(k, ops, unary):
                for r in numeric(n - k, ops, unary):
                    for o in ops:
                        yield ("bin", o, l, r)
                        if unary:
                            yield ("sign", "-", ("bin", o, l, r))

    def fill(e, vals):
        if e is None:
            return next(vals)
        if e[0] == "bin":
            l = fill(e[2], vals)
            return ("bin", e[1], l, fill(e[3], vals))
        if e[0] == "sign":
            return ("sign", e[1], fill(e[2], vals))
        if e[0] == "not":
            return ("not", fill(e[1], vals))
        return e

    LEAVES = [("num", v) for v in (7, 2, 3, 5, 4)]
    FLEAVES = [("num", v) for v in (2.5, 4, 0.5, 3.0, 8)]

    def g_trees():
        for n in ((2, 3) if ctx.quick else (2, 3, 4)):
            for e in numeric(n, ["+", "-", "*", "/", "**"], True):
                for lv in (LEAVES, FLEAVES):
                    yield fill(e, iter(lv))
        for e in numeric(4, ["+", "-", "*", "/", "**"], False):
            for lv in (LEAVES, FLEAVES):
                yield fill(e, iter(lv))
        for n in (2, 3, 4):
            for e in numeric(n, ["&", "|", "+", "*"], False):
                yield fill(e, iter(LEAVES))
        if not ctx.quick:
            for e in numeric(5, ["+", "-", "*", "/", "**"], False):
                yield fill(e, iter(LEAVES))

    def logic(n):
        """trees over comparisons; a leaf is a comparison of two numbers"""
        if n == 1:
            for o in ("<", ">", "<=", ">=", "==", "!="):
                yield ("bin", o, None, None)
            return
        for k in range(1, n):
            for l in logic1(k):
                for r in logic1(n - k):
                    for o in ("and", "or"):
                        yield ("bin", o, l, r)

    def logic1(n):
        if n == 1:
            yield ("bin", "<", None, None)
            yield ("bin", ">=", None, None)
            yield ("not", ("bin", "==", None, None))
            return
        for e in logic(n):
            yield e
            yield ("not", e)

    def g_logic():
        for vals in itertools.product((1, 2), repeat=2):
            for e in logic(1):
                yield fill(e, iter([("num", v) for v in vals]))
                yield ("not", fill(e, iter([("num", v) for v in vals])))
                yield fill(e, iter([("bin", "+", ("num", v), ("num", 1)) for v in vals]))
        for n in (2, 3):
            for e in logic1(n):
                for vals in itertools.product(((1, 2), (2, 1)), repeat=n):
                    yield fill(e, iter([("num", v) for p in vals for v in p]))
        L = ("list", [("num", 1), ("num", 2)])
        for v in (1, 3):
            for o in ("in", "not in"):
                for c in (L, ("tuple", [("num", 1), ("num", 2)])):
                    m = ("bin", o, ("num", v), c)
                    yield m
                    yield ("not", m)
                    for o2 in ("and", "or"):
                        for w in (("bin", "<", ("num", 1), ("num", 2)), ("bin", "<", ("num", 2), ("num", 1))):
                            yield ("bin", o2, m, w)
                            yield ("bin", o2, w, m)

    def f_tree(e, st):
        try:
            want = D.ev(e, {})
        except D.Domain:
            raise Skip()
        for full in (False, True):
            src = show(e, full)
            expect("_a.b = " + src, want, st, "expression")
        if isinstance(want, bool):
            # the same as a condition
            expect("if (%s) _a.b = 'yes'\nelse _a.b = 'no'" % show(e), "yes" if want else "no", st, "condition")
            other = show(e).replace(" and ", " && ").replace(" or ", " || ")
            if other != show(e):
                expect("_a.b = " + other, want, st, "expression")
                expect("_a.b = " + other.replace(" ", ""), want, st, "expression") if "not" not in other and "in" not in other else None
    ctx.explore("expression trees", g_trees, f_tree)
    ctx.explore("logical trees", g_logic, f_tree)

    # ---- literals
    def g_lit():
        digs = ["0", "1", "9", "00", "07", "10", "42", "123", "1000000"]
        for d in digs:
            yield d, int(d)
            yield d + "j", int(d) * 1j
            yield d + "J", int(d) * 1j
        for a in ("", "0", "5", "12", "007"):
            for b in ("", "0", "5", "25", "007"):
                for e in ("", "e2", "E2", "e+2", "E-2", "e-10", "e0", "e05"):
                    if a or b:
                        t = a + "." + b + e
                        yield t, float(t)
                        yield t + "j", float(t) * 1j
                        yield t + "J", float(t) * 1j
        for n in range(0, 40):
            yield "0b" + bin(n)[2:], n
            yield "0B" + bin(n)[2:], n
            yield "0o" + oct(n)[2:], n
            yield "0O" + oct(n)[2:], n
            for h in ("%x" % n, "%X" % n):
                yield "0x" + h, n
                yield "0X" + h, n
        for n in (255, 3735928559, 65535, 43981):
            for f in ("0x%x", "0X%X", "0o%o"):
                yield f % n, n
        for t, v in (("pi", 3.141592653589793), ("Pi", 3.141592653589793), ("PI", 3.141592653589793), ("TwoPi", 6.283185307179586), ("twopi", 6.283185307179586)):
            yield t, v

    def f_lit(case, st):
        t, v = case
        expect("_a.b = " + t, v, st, "literal")
        expect("_a.b=-" + t, -v, st, "literal")
        expect("_a.b = (" + t + ")*2", v * 2, st, "literal")
        expect("_a.b = [" + t + "," + t + "]", [v, v], st, "literal")
        if isinstance(v, int):
            expect("y = [0,1,2,3]\n_a.b = y[" + t + "-" + t + "]", 0, st, "literal")
        expect("z = 1\nif (z == 1) _a.b = " + t + "\nelse _a.b = 0", v, st, "literal")
    ctx.explore("number literals", g_lit, f_lit)

    def f_badlit(t, st):
        check(refused("_a.b = " + t), "bad-literal", lambda: "%r accepted" % t)
        expect("_a.b = 3", 3, st, "after-bad")
    ctx.explore("malformed literals", lambda: iter(["0b", "0b2", "0b12", "0o8", "0o78", "0x", "0xg", "0x1g", "1e5", "1 2", ". 5", "1 . 5", "5x", "1.5x", "'a", "\"a", "'''a'", "'a\n'", "''' a",
                                              "@", "$", "?", "~", "!", "%", "1 ! 2", "2 % 3", "é", "1 = 2 = 3", "x y", "_.x", "_a.", "a.", ".a", "1 <> 2", "1 === 2", "1 =< 2", "&", "1 &&& 2", "1 // 2", "2 *** 3"]), f_badlit)

    # ---- text values
    CH = ["a", "'", '"', "\\", "#", ";", "(", "]", " ", "\t", "é", "{", "x=1"]

    def g_str():
        for n in range(0, 3 if ctx.quick else 4):
            for c in itertools.product(CH, repeat=n):
                yield "".join(c)

    def quoted(v):
        """every way of writing the text as a literal"""
        esc = v.replace("\\", "\\\\")
        for q in ("'", '"'):
            yield q + esc.replace(q, "\\" + q) + q
            if q not in v:
                yield q + esc + q
            t = q * 3
            if q not in v:
                yield t + esc + t
            elif not v.endswith(q) and t not in v and not v.startswith(q):
                yield t + esc + t
            if "\\" not in v:
                for p in ("r", "R", "u", "U"):
                    if q not in v:
                        yield p + q + v + q
            elif not v.endswith("\\") and q not in v:
                yield "r" + q + v + q
                yield "R" + q * 3 + v + q * 3

    def f_str(v, st):
        for lit in quoted(v):
            expect("_a.b = " + lit, v, st, "text")
            expect("_a.b = " + lit + " + 'z'", v + "z", st, "text")
            expect("_a.b = 'z' + " + lit + " # note", "z" + v, st, "text")
            expect("_a.b = (" + lit + "," + lit + ")", (v, v), st, "text")
            expect("y = " + lit + "; _a.b = [" + lit + ", y]", [v, v], st, "text")
            expect("y = {'k':" + lit + "," + lit + ":2}\n_a.b = y['k']" if v != "k" else "_a.b = 'k'", v, st, "text")
            expect("y = {'k':" + lit + "," + lit + ":2}\n_a.b = y[" + lit + "]" if v != "k" else "_a.b = 2", 2, st, "text")
    ctx.explore("text literals", g_str, f_str)

    # ---- layout: what may stand between two tokens
    #   a program is a list of tokens and of breaks ("nl": line end needed; "NL": line end allowed)
    PROGS = [
        ("_a.b = 1 + ( 2 * 3 ) - 4".split(), 3),
        ("_a.b = ( 1 , ( 2 , 3 ) , 4 )".split(), (1, (2, 3), 4)),
        ("_a.b = [ NL 1 , NL 2 , NL [ NL 3 , NL 4 NL ] NL ]".split(), [1, 2, [3, 4]]),
        ("_a.b = { NL 'k' : 1 , NL 'm' : [ NL 2 NL ] NL }".split(), {"k": 1, "m": [2]}),
        ("x = 2 nl y = ( x + 1 ) nl _a.b = x * y".split(), 6),
        ("x = 2 ; y = x ; _a.b = x * y nl".split(), 4),
        ("x = 2 nl if ( x == 2 ) NL { NL _a.b = 1 nl x = 3 nl } NL else { NL _a.b = 2 nl } nl _a.b = _a.b + x".split(), 4),
        ("x = 2 nl if ( x > 2 ) NL _a.b = 1 nl elseif ( x == 2 ) NL _a.b = 2 nl else _a.b = 3".split(), 2),
        ("_a.b = 0 nl do i = 1 , 3 { NL _a.b = _a.b + i nl } nl x = 1".split(), 6),
        ("_a.b = 0 nl for i in [ NL 1 , NL 2 NL ] { NL _a.b += i nl } nl x = 1".split(), 3),
        ("_a.b = 0 nl for [ i , j ] in [ NL [ NL 1 , NL 2 NL ] , NL [ NL 3 , 4 NL ] NL ] { NL _a.b += i * j nl } nl x = 1".split(), 14),
        ("_a.b = 0 nl repeat { NL _a.b += 2 nl if ( _a.b > 5 ) NL break nl } nl x = 1".split(), 6),
        ("y = [ NL 1 , NL 2 NL ] nl _a.b = y [ 0 ] + y [ 1 ]".split(), 3),
        ("_a.b = Max ( 1 , Sqrt ( 16 ) , 2 )".split(), 4.0),
        ("x = 'p q' nl _a.b = x + \"r#s\"".split(" "), "p qr#s"),
    ]
    PROGS[-1] = (["x", "=", "'p q'", "nl", "_a.b", "=", "x", "+", '"r#s"'], "p qr#s")
    WORDY = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.'\"$")

    def gaps(toks):
        """(left, kind, right) for every gap: kind in plain/paren/free/end"""
        out, depth, i = [], 0, 0
        real = []
        kind = "start"
        for t in toks:
            if t == "NL":
                kind = "free"
                continue
            if t == "nl":
                kind = "end"
                continue
            real.append((kind, t))
            kind = "plain"
            if t == "(":
                depth += 1
            if t == ")":
                depth -= 1
            if depth:
                kind = "paren"
        return real, kind

    SEP = {"plain": [" ", "", "\t", "   ", " \\\n ", "\\\n", " \\\n\\\n\t"],
           "paren": [" ", "", "\n", "\n\n", " # c ) '\n", "\t", "\\\n", "\n#\n# ( [ \"\n "],
           "free": [" ", "", "\n", "\n\n", " \n\t\n ", " # it's a comment {\n", "\n# )\n# x\n", "\\\n"],
           "end": ["\n", "\n\n", " \n", "\n   ", " # x = 5 ; y\n", "\n# c\n\n#d\n  ", "\n\t\n", " ;\n", "; # c\n"],
           "start": ["", "\n", " ", "\n\n  ", "# c\n", "\n# c\n\n", "\t"],
           "last": ["", "\n", "\n\n", "  ", " # end", "\n# end", "\n \n", ";", " ; # x"]}

    def merges(a, b):
        return bool(a) and bool(b) and (a[-1] in WORDY and b[0] in WORDY or a[-1] + b[0] in ("**", "==", "||", "&&", "++", "--", "-=", "+=", "<=", ">="))

    def render(toks, choice):
        real, lastkind = gaps(toks)
        out, prev = "", ""
        for i, (kind, t) in enumerate(real):
            sep = choice.get(i)
            if sep is None:
                sep = {"plain": " ", "paren": " ", "free": " ", "end": "\n", "start": ""}[kind]
            if sep.strip(" \t") == "" and sep == "" and merges(prev, t):
                return None
            if sep == "\\\n" and merges(prev, t):
                pass            # a continued line still separates tokens
            if kind == "end" and ";" in sep and prev in ("}", "{"):
                return None     # only simple statements end in a semicolon
            out += sep + t
            prev = t
        tail = choice.get(len(real), "")
        if ";" in tail and (prev == "}" or lastkind == "end"):
            return None
        return out + tail

    def g_layout():
        for pi, (toks, want) in enumerate(PROGS):
            real, _ = gaps(toks)
            kinds = [k for k, _t in real] + ["last"]
            opts = [SEP[k] for k in kinds]
            for i in range(len(kinds)):
                for s in opts[i]:
                    yield pi, ((i, s),)
            for i, j in itertools.combinations(range(len(kinds)), 2):
                if ctx.quick and j - i > 2:
                    continue
                for s in opts[i]:
                    for u in opts[j]:
                        yield pi, ((i, s), (j, u))
            for k in range(1, 9):        # everywhere at once
                yield pi, tuple((i, o[k % len(o)]) for i, o in enumerate(opts))

    def f_layout(case, st):
        pi, ch = case
        toks, want = PROGS[pi]
        t = render(toks, dict(ch))
        if t is None:
            raise Skip()
        t = t.replace("elseif", "else if")
        expect(t, want, st, "layout")
    ctx.explore("layouts", g_layout, f_layout)

    # ---- spellings of keywords and names
    KW = {"and": ["and"], "or": ["or"], "in": ["in"], "not": ["not"], "do": ["do", "Do"], "for": ["for", "For"], "else": ["else", "Else"], "next": ["next", "Next"],
          "break": ["break", "Break"], "if": ["if", "If"], "function": ["function", "Function"], "print": ["print", "Print"], "repeat": ["repeat", "Repeat"],
          "elseif": ["else if", "Else If", "ELSE IF", "else  if", "else\tif", "Else if"]}

    def g_names():
        import keyword
        words = set(keyword.kwlist) | set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
        words |= {"math", "cmath", "numpy", "copy", "ciffile", "drel_runtime", "StarList", "packet_no", "imap", "drel_func", "myfunc", "result", "a", "b", "_", "l", "O", "I", "self", "CifFile", "e1", "j", "J", "r", "u", "R", "U", "ur", "rb"}
        own = set(sum(KW.values(), [])) | {"as", "with", "With", "loop", "Loop", "where", "Where", "switch", "case", "default", "True", "False", "None"}
        for k in sorted(own):
            for w in (k + "x", k + "1", k + "_", k + "$", "x" + k, k.upper() + "2", k + k):
                words.add(w.replace(" ", "").replace("\t", ""))
        for w in sorted(words):
            if w not in own and w[:1].isalpha() and w.lower() not in ("pi", "twopi") and all(c.isalnum() or c in "_$" for c in w):
                yield w
        yield "x$"
        yield "a$b$c"

    def f_name(w, st):
        expect("%s = 5\n_a.b = %s + 1" % (w, w), 6, st, "name")
        expect("%s = 5\n%s += 2\n_a.b = Max(%s,1) + Abs(-3)" % (w, w, w), 10, st, "name")
        expect("_a.b = 0\ndo %s = 1,3 {\n _a.b = _a.b + %s\n}" % (w, w), 6, st, "name")
        expect("_a.b = 0\nfor %s in [1,2] {\n _a.b = _a.b * 10 + %s\n}" % (w, w), 12, st, "name")
        expect("_a.b = 0\nfor [%s,zz] in [[1,2],[3,4]] {\n _a.b = _a.b + %s * zz\n}" % (w, w), 14, st, "name")
        expect("%s = [[1,2],[3,4]]\n_a.b = %s[1,0] + Len(%s)" % (w, w, w), 5, st, "name")
        expect("function Ff(%s:[Single,Real], q9:[Single,Real]) {\n Ff = %s - q9\n}\n_a.b = Ff(5,3)" % (w, w), 2, st, "name")
        expect("%s = 1\nif (%s == 1) {\n _a.b = 1\n} else %s = 2\n_a.b = %s" % (w, w, w, w), 1, st, "name")
        expect("%s = 1\nif (%s != 1) _a.b = 1\nelse %s = 2\n_a.b = %s" % (w, w, w, w), 2, st, "name")
        expect("%s = 1\n_a.b = not %s == 2 and %s in [1] or %s > 5" % (w, w, w, w), True, st, "name")
    ctx.explore("variable names", g_names, f_name)

    def g_kw():
        for k in KW:
            for w in KW[k]:
                yield k, w

    KWPROG = {"and": ("_a.b = 1 < 2 {} 2 < 1", False), "or": ("_a.b = 1 < 2 {} 2 < 1", True), "in": ("_a.b = 1 {} [1,2]", True), "not": ("_a.b = {} 1 < 2", False),
              "do": ("_a.b = 0\n{} i = 1,3 _a.b += i", 6), "for": ("_a.b = 0\n{} i in [1,2] _a.b += i", 3), "else": ("if (1 > 2) _a.b = 1\n{} _a.b = 2", 2),
              "next": ("_a.b = 0\ndo i = 1,3 {{\nif (i == 2) {}\n_a.b += i\n}}", 4), "break": ("_a.b = 0\ndo i = 1,3 {{\nif (i == 2) {}\n_a.b += i\n}}", 1),
              "if": ("_a.b = 1\n{} (1 < 2) _a.b = 2", 2), "function": ("{} f(x:[Single,Real]) {{\nf = x\n}}\n_a.b = f(3)", 3), "print": ("_a.b = 2\n{} _a.b", 2),
              "repeat": ("_a.b = 0\n{} {{\n_a.b += 1\nif (_a.b > 3) break\n}}", 4), "elseif": ("if (1 > 2) _a.b = 1\n{} (1 < 2) _a.b = 2\nelse _a.b = 3", 2)}

    def f_kw(case, st):
        k, w = case
        t, want = KWPROG[k]
        expect(t.format(w), want, st, "keyword")
    ctx.explore("keywords", g_kw, f_kw)

    # ---- statements: every small program, traced
    #   'w' appends its number to the trace, conditions look at the loop variables
    def bodies(n, loops, inloop):
        """all statement lists with n statements (nested ones counted)"""
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for s in stmts(k, loops, inloop):
                for rest in bodies(n - k, loops, inloop):
                    yield (s,) + rest

    CONDS = ("T", "F", "V")

    def stmts(n, loops, inloop):
        if n == 1:
            yield ("w",)
            if inloop:
                yield ("break",)
                yield ("next",)
            return
        for c in (CONDS if loops else CONDS[:2]):
            for b in bodies(n - 1, loops, inloop):
                yield ("if", c, b, None)
            for k in range(1, n - 1):
                for b in bodies(k, loops, inloop):
                    for e in bodies(n - 1 - k, loops, inloop):
                        yield ("if", c, b, e)
        if n >= 4 and n <= 5:
            for c, c2 in itertools.product(CONDS[:2], repeat=2):
                yield ("elif", c, c2, n)
        if loops < 2:
            for r in ("up", "down", "none", "list"):
                for b in bodies(n - 1, loops + 1, True):
                    yield (r, b)

    def build(body, loops, counter, layout, ind):
        """(text, reference statements)"""
        tx, rf = "", []
        pad = "  " * ind if layout != 2 else ""

        def cond(c):
            if c == "T":
                return "2 > 1", ("bin", ">", ("num", 2), ("num", 1))
            if c == "F":
                return "2 < 1", ("bin", "<", ("num", 2), ("num", 1))
            v = "i%d" % loops
            return v + " == 2", ("bin", "==", ("id", v), ("num", 2))

        def suite(b, newloops):
            t, r = build(b, newloops, counter, layout, ind + 1)
            if layout == 1 and len(b) == 1 and b[0][0] in ("w", "break", "next"):
                return " " + t.strip() + "\n", r
            if layout == 1 and len(b) == 1:
                return " " + t.lstrip(), r
            return " {\n" + t + pad + "}\n", r
        for s in body:
            if s[0] == "w":
                counter[0] += 1
                c = "abcdefghijklmnop"[counter[0] % 16]
                src = "_a.b = _a.b + '%s'" % c
                r = ("set", "_a.b", ("bin", "+", ("id", "_a.b"), ("str", c)))
                if loops:
                    src += " + Str(i%d)" % loops
                    r = ("set", "_a.b", ("bin", "+", r[2], ("call", "Str", [("id", "i%d" % loops)])))
                if layout == 2 and tx.endswith("\n") and rf and rf[-1][0] == "set":
                    tx = tx[:-1] + " ; " + src + "\n"
                else:
                    tx += pad + src + "\n"
                rf.append(r)
            elif s[0] in ("break", "next"):
                tx += pad + s[0] + "\n"
                rf.append((s[0],))
            elif s[0] == "if":
                c, cr = cond(s[1])
                b, br = suite(s[2], loops)
                tx += pad + "if (" + c + ")" + b
                er = None
                if s[3] is not None:
                    e, er = suite(s[3], loops)
                    if layout == 0 and b.endswith("}\n"):
                        tx = tx[:-1] + " else" + e
                    else:
                        tx += pad + "else" + e
                rf.append(("if", [(cr, br)], er))
            elif s[0] == "elif":
                c, cr = cond(s[1])
                c2, cr2 = cond(s[2])
                b1, r1 = suite((("w",),), loops)
                b2, r2 = suite((("w",),), loops)
                tx += pad + "if (" + c + ")" + b1 + pad + "else if (" + c2 + ")" + b2
                e, er = None, None
                if s[3] == 5:
                    e, er = suite((("w",),), loops)
                    tx += pad + "else" + e
                rf.append(("if", [(cr, r1), (cr2, r2)], er))
            else:
                v = "i%d" % (loops + 1)
                b, br = suite(s[1], loops + 1)
                if s[0] == "list":
                    tx += pad + "for %s in [1,2,3]" % v + b
                    rf.append(("for", [v], ("list", [("num", 1), ("num", 2), ("num", 3)]), br))
                else:
                    lo, hi, step = {"up": (1, 3, None), "down": (3, 1, -1), "none": (2, 1, None)}[s[0]]
                    tx += pad + "do %s = %d,%d%s" % (v, lo, hi, "" if step is None else ",%d" % step) + b
                    rf.append(("do", v, ("num", lo), ("num", hi), None if step is None else ("num", step), br))
        return tx, rf

    def dangling(body):
        """a single-statement suite that ends in an if without else, followed by else"""
        for s in body:
            if s[0] == "if":
                if s[3] is not None and ends_open(s[2]):
                    return True
                if dangling(s[2]) or s[3] is not None and dangling(s[3]):
                    return True
            elif s[0] in ("up", "down", "none", "list") and dangling(s[1]):
                return True
        return False

    def ends_open(b):
        if len(b) != 1:
            return False
        s = b[0]
        if s[0] == "if":
            return s[3] is None or ends_open(s[3])
        if s[0] == "elif":
            return s[3] == 4
        if s[0] in ("up", "down", "none", "list"):
            return ends_open(s[1])
        return False

    def g_prog():
        for n in range(1, 5 if ctx.quick else 6):
            for b in bodies(n, 0, False):
                for layout in (0, 1, 2):
                    yield b, layout
        if ctx.quick:
            # five statements: only those with two loops or an else
            for b in bodies(5, 0, False):
                if len(b) == 1 and b[0][0] in ("up", "list") and len(b[0][1]) <= 2:
                    yield b, 0

    def f_prog(case, st):
        body, layout = case
        if layout == 1 and dangling(body):
            raise Skip()
        t, rf = build(body, 0, [0], layout, 0)
        t = "_a.b = '>'\n" + t
        env = {"_a.b": ">"}
        try:
            D.run(rf, env, [200])
        except D.Fuel:
            raise Skip()
        expect(t, env["_a.b"], st, "statements")
    ctx.explore("programs", g_prog, f_prog)

    # ---- dangling else belongs to the nearest if; conditions chosen freely
    def f_dangle(case, st):
        a, b, c = ["2 > 1" if x else "2 < 1" for x in case[0]]
        form = case[1]
        A, B, C = case[0]
        t = {0: "_a.b = 0\nif (%s) if (%s) _a.b = 1\nelse _a.b = 2" % (a, b),
             1: "_a.b = 0\nif (%s) {\nif (%s) _a.b = 1\n}\nelse _a.b = 2" % (a, b),
             2: "_a.b = 0\nif (%s) _a.b = 1\nelse if (%s) _a.b = 2\nelse if (%s) _a.b = 3\nelse _a.b = 4" % (a, b, c),
             3: "_a.b = 0\nif (%s) _a.b = 1\nelse if (%s) _a.b = 2\nelse if (%s) _a.b = 3" % (a, b, c),
             4: "_a.b = 0\nif (%s) _a.b = 1\nif (%s) _a.b = _a.b + 2\nelse if (%s) _a.b = _a.b + 4" % (a, b, c),
             5: "_a.b = 0\nif (%s) {\n_a.b = 1\n}\nif (%s) {\n_a.b = _a.b + 2\n} else {\nif (%s) _a.b = _a.b + 4\nelse _a.b = _a.b + 8\n}" % (a, b, c)}[form]
        want = {0: (1 if B else 2) if A else 0, 1: (1 if B else 0) if A else 2, 2: 1 if A else 2 if B else 3 if C else 4, 3: 1 if A else 2 if B else 3 if C else 0,
                4: A * 1 + (2 if B else 4 if C else 0), 5: A * 1 + (2 if B else 4 if C else 8)}[form]
        expect(t, int(want), st, "choice")
    ctx.explore("choices", lambda: itertools.product(itertools.product((True, False), repeat=3), range(6)), f_dangle)

    # ---- do ranges, with literal, variable and calculated limits
    def f_do(case, st):
        a, b, c, form = case
        if c is None:
            want = list(range(a, b + 1))
        else:
            want = list(range(a, b + 1, c)) if c > 0 else list(range(a, b - 1, c))
        q = [str(v) for v in (a, b, 1 if c is None else c)]
        if form == 1:
            pre, q = "p = %s\nq = %s\nr = %s\n" % tuple(q), ["p", "q", "r"]
        elif form == 2:
            pre, q = "p = [%s,%s,%s]\n" % tuple(q), ["p[0]", "p[1+0]", "p[2]"]
        elif form == 3:
            pre, q = "", [v + "*1+1-1" for v in q]
        else:
            pre = ""
        head = ",".join(q if c is not None else q[:2])
        expect(pre + "_a.b = []\ndo i = %s {\n _a.b ++= i\n}" % head, want, st, "do")
        expect(pre + "_a.b = 0\ndo i = %s {\n if (i == 2) next\n _a.b = _a.b + i\n}" % head, sum(v for v in want if v != 2), st, "do")
        expect(pre + "_a.b = 0\ndo i = %s {\n do j = 1,i { \n _a.b += 1\n}\n}" % head, sum(max(v, 0) for v in want), st, "do")
    ctx.explore("do ranges", lambda: itertools.product(range(-2, 4), range(-2, 5), (None, 1, 2, 3, -1, -2), range(4)), f_do)

    # ---- assignments
    V = {"3": 3, "2.5": 2.5, "[1,2]": [1, 2], "[[1,2],[3,4]]": [[1, 2], [3, 4]], "'p'": "p", "[3]": [3], "[]": [], "Array([1,2])": [1, 2], "2*[1,3]": [2, 6],
         "1+1": 2, "Matrix([[1,2],[3,4]])": [[1., 2.], [3., 4.]], "['p','q']": ["p", "q"], "Complex(1,2)": 1 + 2j, "[1,2,3]": [1, 2, 3], "[[1,2]]": [[1, 2]], "7/2": 3.5}
    NPY = ("Array([1,2])", "2*[1,3]", "Matrix([[1,2],[3,4]])")

    def g_aug():
        for l in V:
            for r in V:
                for o in ("+=", "-=", "++=", "--=", "="):
                    for tgt in ("_a.b", "z"):
                        yield l, r, o, tgt

    def f_aug(case, st):
        l, r, o, tgt = case
        a, b = V[l], V[r]
        try:
            if o == "+=":
                want = D.arith("+", a, b)
            elif o == "-=":
                want = D.arith("-", a, b)
            elif o == "++=":
                if not isinstance(a, list) or l in NPY:
                    raise D.Domain()
                want = a + [b]
            elif o == "--=":
                if not isinstance(a, list) or l in NPY or r in NPY or b not in a:
                    raise D.Domain()
                want = list(a)
                want.remove(b)
            else:
                want = b
        except D.Domain:
            raise Skip()
        t = "y = %s\n%s = y\nw = %s\n%s %s w\n_a.b = [%s, y, w]" % (l, tgt, r, tgt, o, tgt)
        expect(t, [want, a, b], st, "assignment")
        if o != "=":
            t = "z = %s\ndo i = 1,2 z %s %s\n_a.b = z" % (l, o, r)
            try:
                w2 = D.arith(o[0], want, b) if o in ("+=", "-=") else want + [b] if o == "++=" else None
            except D.Domain:
                w2 = None
            if w2 is not None:
                expect(t, w2, st, "assignment twice")
    ctx.explore("assignments", g_aug, f_aug)

    def f_multi(case, st):
        t, want = case
        expect(t, want, st, "targets")
    ctx.explore("assignment targets", lambda: iter([
        ("[x,y] = [1,2]\n_a.b = [y,x]", [2, 1]), ("x,y = [1,2]\n_a.b = [y,x]", [2, 1]), ("x,y = 1,2\nx,y = y,x\n_a.b = [x,y]", [2, 1]),
        ("x = 1,2\n_a.b = x", (1, 2)), ("_a.b = 1,'a',[2]", (1, "a", [2])), ("[_a.b,x] = [1,2]", 1), ("x = [1,2,3]\nx[1] = 7\n_a.b = x", [1, 7, 3]),
        ("x = Table()\nx['a'] = 1\nx['b'] = [2]\n_a.b = x", {"a": 1, "b": [2]}), ("x = {}\nx['a'] = 1\n_a.b = x", {"a": 1}), ("_a.b = Table()\n_a.b['q'] = 4", {"q": 4}),
        ("_a.b = []\n_a.b ++= [1]\n_a.b ++= 2", [[1], 2]), ("_A.B = 3\n_a.b = _A.b + 1", 4), ("_a.b = List()\n_a.b ++= 'x'", ["x"]),
        ("x = [[1,2],[3,4]]\n[p,q] = x[1]\n_a.b = p*10+q", 34), ("x = 1\ny = x\nx = 2\n_a.b = y", 1), ("x = [1]\ny = x\ny ++= 2\n_a.b = x", [1]),
        ("x = [1,2]\ny = x\ny --= 2\n_a.b = x", [1, 2]), ("x = [1,2]\ny = x\ny += 2\n_a.b = x", [1, 2]),
        ("y = [1,2]\nfor x in y {\n y ++= x\n}\n_a.b = y", [1, 2, 1, 2]), ("_a.b = 0\nfor x in [1,2] {\n x = x + 1\n _a.b += x\n}", 5),
        ("x = 5\nfunction f(x:[Single,Real]) {\n x = x + 1\n f = x\n}\n_a.b = [f(1),x]", [2, 5]),
        ("function f(x:[Single,Real]) {\n f = x * 2\n}\nfunction g(x:[Single,Real], y:[Single,Real]) {\n g = f(x) + f(y)\n}\n_a.b = g(1,f(2))", 10),
    ]), f_multi)

    # ---- reading items of the data block
    def f_block(case, st):
        t, want = case
        expect(t, want, st, "items", {"_c.d": 5})
    ctx.explore("items", lambda: iter([("_a.b = _c.d + 1", 6), ("_a.b = _C.D", 5), ("x = _c.d\n_a.b = x * _c.d", 25), ("with q as c\n_a.b = q.d", 5), ("With q as c {\n_a.b = q.d + q.D\n}", 10),
                                       ("with q as a\n q.b = _c.d", 5), ("with q as a\nwith r as c {\n q.b = r.d\n}", 5), ("_a.b = [_c.d,_c.d]", [5, 5]), ("_a.b = -_c.d ** 2", -25)]), f_block)

    # ---- functions
    SC = ["0", "1", "2", "-1", "0.5", "2.5", "-7", "30", "90", "180", "7"]
    LI = ["[3,1,2]", "[1]", "[2.5,-1]", "[[1,2],[3,4]]", "'b'", "'12'", "'-7'", "['b','a']", "(1,2)", "[1,2,3]", "[0,1,0]", "{'k':1}", "''", "[[1,2,3],[4,5,6],[7,8,10]]", "Complex(3,4)", "2j", "[2,2,1]"]
    FN = ["List", "Table", "Array", "Len", "Abs", "Magn", "AtoI", "Float", "Str", "Norm", "Sqrt", "Exp", "Complex", "Max", "Min", "Strip", "Int", "Mod", "Upper", "Transpose", "ExpImag", "Real", "Imag", "Matrix", "Sort",
          "Sind", "Cosd", "Tand", "Asind", "Acosd", "Atand", "Atan2d"]

    def reparse(src):
        toks, i = [], 0
        import re
        for m in re.finditer(r"\s*(?:(\d+\.\d*|\d+)(j?)|('[^']*'|\"[^\"]*\")|(\w+)|(\*\*|[-+*/^()\[\]{},:.]))", src):
            if m.group(1) is not None:
                v = float(m.group(1)) if "." in m.group(1) else int(m.group(1))
                toks.append(num(v * 1j if m.group(2) else v))
            elif m.group(3) is not None:
                toks.append(("str", m.group(3)[1:-1], m.group(3)))
            elif m.group(4) is not None:
                toks.append(idt(m.group(4)))
            else:
                toks.append(op(m.group(5)))
        s, items = D.status(toks)
        assert s == "ok", src
        return items[0]

    def g_fn():
        for f in FN:
            for sp in (f, f.lower(), f.upper()):
                yield sp + "()"
                for a in SC + LI:
                    yield "%s(%s)" % (sp, a)
                    if f in ("Array", "Matrix", "Transpose") and a.startswith("[["):
                        yield "%s(Matrix(%s))" % (sp, a)
        for f in ("Complex", "Max", "Min", "Strip", "Mod", "Atan2d", "List"):
            for a in SC + LI:
                for b in SC + LI[:3]:
                    yield "%s(%s,%s)" % (f, a, b)
        for f in ("Max", "Min", "List"):
            for c in itertools.product(SC[:6], repeat=3):
                yield "%s(%s)" % (f, ",".join(c))
        for f in FN:
            for g in FN:
                for a in ("2", "[3,1,2]", "'b'", "0.5"):
                    yield "%s(%s(%s))" % (f, g, a)

    def f_fn(src, st):
        try:
            want = D.ev(reparse(src), {})
        except D.Domain:
            raise Skip()
        expect("_a.b = " + src, want, st, "function")
        if not src.startswith(("Table", "table", "TABLE")):
            expect("x = " + src + "\n_a.b = [x," + src + "]", [want, want], st, "function")
            expect("if (Len([" + src + "]) == 1) _a.b = " + src, want, st, "function")
    ctx.explore("functions", g_fn, f_fn)

    # ---- vectors and matrices
    VM = ["2", "-1.5", "[1,2,3]", "[4,5,7]", "[[1,2,3],[4,5,6],[7,8,10]]", "[[2,0,1],[0,3,0],[1,1,1]]", "Matrix([[1,2,3],[4,5,6],[7,8,10]])", "Array([1,2,3])", "Array([[0,1,0],[1,0,0],[0,0,2]])",
          "[1,2]", "[[1,2],[3,4]]", "Complex(1,2)", "[0,0,1]", "[Complex(1,2),2,3]", "[5]", "[[1,2,3],[4,5,6]]"]

    def g_vec():
        ops = ["+", "-", "*", "/", "^"]
        for a in VM:
            for b in VM:
                for o in ops:
                    yield "%s %s %s" % (a, o, b)
                    yield "-%s %s %s" % (a, o, b)
                    yield "%s %s -%s" % (a, o, b)
        for a, b, c in itertools.product(VM[:9], repeat=3):
            for o1, o2 in itertools.product(("*", "+", "-", "^"), repeat=2):
                if ctx.quick and o1 != "*" and o2 != "*":
                    continue
                yield "%s %s %s %s %s" % (a, o1, b, o2, c)
                yield "%s %s (%s %s %s)" % (a, o1, b, o2, c)

    def f_vec(src, st):
        try:
            want = D.ev(reparse(src), {})
        except D.Domain:
            raise Skip()
        expect("_a.b = " + src, want, st, "vector")
        if isinstance(want, list) and "Matrix" not in src and all(D.isnum(v) for v in want):
            expect("x = " + src + "\n_a.b = x[%d]" % (len(want) - 1), want[-1], st, "vector element")
    ctx.explore("vectors and matrices", g_vec, f_vec)

    def f_eig(m, st):
        want = {0: 0}
        got = D.plain(evaluate("_a.b = Eigen(%s)" % m))
        M = D.ev(reparse(m), {})
        check(len(got) == 3 and all(len(r) == 4 for r in got), "eigen", lambda: "%s: %s" % (m, short(repr(got))))
        check([r[0] for r in got] == sorted([r[0] for r in got], reverse=True), "eigen-order", lambda: "%s: %s" % (m, short(repr(got))))
        for r in got:
            v = r[1:]
            left = [D.dot(row, v) for row in M]
            check(sum(x * x for x in v) > 0.9 and all(abs(x - r[0] * y) < 1e-8 * (1 + abs(r[0])) for x, y in zip(left, v)), "eigen-vector",
                  lambda: "%s: %s is not an eigenvector" % (m, r))

    def g_eig():
        for a, b, c, d, e, f in itertools.product((1, 2), (0, 1), (0, 2), (3, 5), (0, -1), (4, 7)):
            yield "[[%d,%d,%d],[%d,%d,%d],[%d,%d,%d]]" % (a, b, c, b, d, e, c, e, f)
    ctx.explore("eigenvectors", g_eig, f_eig)

    # ---- printing
    def f_print(case, st):
        t, want = case
        out = io.StringIO()
        evaluate(t, None, out)
        lines = [l for l in out.getvalue().split("\n") if l.startswith("@")]
        check(lines == want, "print", lambda: "%r printed %s instead of %s" % (t, lines, want))
    ctx.explore("printing", lambda: iter([("_a.b = 1\nprint '@1'", ["@1"]), ("_a.b = 1\ndo i = 1,3 print '@' + Str(i)", ["@1", "@2", "@3"]), ("_a.b = 1\nPrint '@x'; print '@y'", ["@x", "@y"])]), f_print)

    # ---- histories: nothing read before matters
    GOOD = [("_a.b = 1", 1), ("x = 2\ny = (x,\n 3)\n_a.b = y", (2, 3)), ("_a.b = 0\ndo i = 1,3 {\n _a.b += i\n}\nx = [1,\n2]", 6), ("if (1 > 2) _a.b = 1\nelse {\n _a.b = 'a\\'b'\n}", "a'b"),
            ("function f(x:[Single,Real]) {\n f = x + 1\n}\n_a.b = f(2)", 3), ("# c\n_a.b = '''t''' + \"u\"\n", "tu")]
    BADP = ["_a.b = (1", "_a.b = ((1,\n2)", "_a.b = [1", "_a.b = {'k':1", "_a.b = 'open", "_a.b = '''open", "_a.b = @", "_a.b = (@", "_a.b = (1,(2,?)", "if (1 > 2", "if (1 > 2) {", "do i = 1", "_a.b = 1)", "_a.b = )", "_a.b = 1 +",
            "for", "function f(", "function f(x:[A]", "x = (1\ny = 2", "_a.b = \"a' + (1", "_a.b *= 2", "loop a as nosuch {\n_a.b = 1\n}", "_a.b = f((", "_a.b = (1 2)", "(", "((", "", "_a.b = ((((1)", "_a.b = (1]", "}", "# only a comment"]

    def run_one(t):
        try:
            return ("value", evaluate(t))
        except RecursionError:
            raise
        except Exception:
            return ("refused", None)

    def cuts():
        for g, _ in GOOD:
            for k in range(1, len(g)):
                yield g[:k]

    def g_hist():
        for g in range(len(GOOD)):
            for b in BADP:
                yield (b,), g
            for c in cuts():
                yield (c,), g
            for a, _ in GOOD:
                yield (a,), g
            for b, c in itertools.product(BADP, repeat=2):
                yield (b, c), g
            for b in BADP:
                for a, _ in GOOD:
                    yield (b, a), g
                    yield (a, b), g

    def f_hist(case, st):
        before, g = case
        for b in before:
            run_one(b)
        t, want = GOOD[g]
        try:
            got = D.plain(evaluate(t))
        except Exception as e:
            check(False, "history:refused", lambda: "%r refused after %r: %r" % (t, before, e))
        check(D.same(got, want), "history", lambda: "%r gave %s after %r" % (t, short(repr(got)), before))

    def f_bad(t, st):
        if t in ("# only a comment", "", "_a.b = 1", "(") and t != "(":
            raise Skip()
        check(refused(t), "accepted", lambda: "%r is not in the language but was accepted" % t)
    # ---- for statements: names, brackets, values, jumps
    def g_for():
        for n in (1, 2, 3, 4):
            for br in ((False, True) if n > 1 else (False, True)):
                for rows in (0, 1, 2, 3):
                    for via in ("literal", "variable", "sum"):
                        for jump in ("", "next", "break"):
                            yield n, br, rows, via, jump

    def f_for(case, st):
        n, br, rows, via, jump = case
        data = [[(10 ** k) * (i + 1) for k in range(n)] for i in range(rows)]
        vals = [d[0] for d in data] if n == 1 else data
        if via == "sum" and rows < 2:
            raise Skip()
        lit = repr(vals)
        pre = ""
        if via == "variable":
            pre, lit = "z = %s\n" % lit, "z"
        elif via == "sum":
            pre, lit = "z = %r\n" % vals[:1] + "".join("z ++= %r\n" % v for v in vals[1:]), "z"
        names = ["u", "v", "w", "q"][:n]
        head = ", ".join(names)
        if br:
            head = "[" + head + "]"
        want, stop = [], False
        for d in data:
            if d[0] == 2 and jump == "next":
                continue
            if d[0] == 2 and jump == "break":
                break
            want.append(sum(d))
        body = ("if (u == 2) %s\n" % jump if jump else "") + "t ++= %s\n" % " + ".join(names)
        expect("t = []\n%sfor %s in %s {\n%s}\n_a.b = t" % (pre, head, lit, body), want, st, "for")
    ctx.explore("for statements", g_for, f_for)

    ctx.explore("refused programs", lambda: iter(BADP + ["do i = 1 2 _a.b = 1", "do i = 1,2,3,4 _a.b = 1", "if 1 > 2 _a.b = 1", "else _a.b = 1", "for x [1,2] _a.b = 1", "do 3 = 1,2 _a.b = 1", "break 3", "x = y = 3", "x = ", "= 3", "_a.b = 1 x = 2",
                                                       "if (1 > 2) { _a.b = 1\n", "_a.b = 1 ;; x = 2", "repeat", "with x as", "with x c\n_a.b = 1", "loop x as\n_a.b = 1", "function (x:[A]) {\n y = 1\n}", "function f(x) {\n f = 1\n}", "_a.b = [1,,2]", "_a.b = [,]", "_a.b = {'k'}",
                                                       "_a.b = {1:2}", "_a.b = f(,)", "_a.b = f(1,)", "_a.b = x[]", "_a.b = x[1,]", "1 = 2 3", "print", "_a.b = not", "_a.b = 1 < 2 < 3", "_a.b = 1 == 2 == 3", "_a.b = 1 in [1] in [2]", "_a.b = a not b", "_a.b = 2 ** ", "_a.b = * 2"]), f_bad)
    ctx.explore("histories", g_hist, f_hist)
