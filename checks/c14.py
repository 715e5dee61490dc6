"""C14: automatic grammar detection = first acceptable grammar, nothing leaks from the others."""
import io, itertools
from mc.core import check, Skip, short
from checks import refparse as R
from checks.c09 import T

BAD = ("bad", "", None)
# text -> tokens it stands for in each grammar
VAL = {
    "v": {g: [T("val", "v", "v")] for g in ("1.0", "1.1", "2.0")},
    "'q r'": {g: [T("val", "", "q r")] for g in ("1.0", "1.1", "2.0")},
    "[v]": {"1.0": [T("val", "", "[v]")], "1.1": [BAD], "2.0": [T("[", ""), T("val", "", "v"), T("]", "")]},
    "[v": {"1.0": [T("val", "", "[v")], "1.1": [BAD], "2.0": [T("[", ""), T("val", "", "v")]},
    "]": {"1.0": [T("val", "", "]")], "1.1": [BAD], "2.0": [T("]", "")]},
    "v]": {"1.0": [T("val", "", "v]")], "1.1": [T("val", "", "v]")], "2.0": [T("val", "", "v"), T("]", "")]},
    "'it's'": {"1.0": [T("val", "", "it's")], "1.1": [T("val", "", "it's")], "2.0": [BAD]},
    "{v}": {"1.0": [T("val", "", "{v}")], "1.1": [T("val", "", "{v}")], "2.0": [BAD]},
    "{'k':v}": {"1.0": [T("val", "", "{'k':v}")], "1.1": [T("val", "", "{'k':v}")], "2.0": [T("{", ""), T("key", "", "k"), T("val", "", "v"), T("}", "")]},
    "\"\"\"a\"b\"\"\"": {"1.0": [T("val", "", '""a"b""')], "1.1": [T("val", "", '""a"b""')], "2.0": [T("val", "", 'a"b')]},
    "'unended": {g: [BAD] for g in ("1.0", "1.1", "2.0")},
}
REST = [T("data", "data_a", "a"), T("data", "data_b", "b"), T("name", "_x", "_x"), T("name", "_y", "_y"), T("loop", "loop_"), T("save", "save_f", "f"), T("end", "save_")]
GR = ("2.0", "1.1", "1.0")


def expect(words, marker):
    for g in GR:
        if g == "2.0" and not marker:
            continue
        toks = []
        for w in words:
            if isinstance(w, str):
                toks += VAL[w][g]
            else:
                toks.append(w)
        s, tree = R.status(tuple(toks), g)
        if s == "ok":
            return g, tree
    return None, None


def alive(words):
    """Completable in some grammar."""
    for g in GR:
        toks = []
        for w in words:
            toks += VAL[w][g] if isinstance(w, str) else [w]
        if R.status(tuple(toks), g)[0] != "dead":
            return True
    return False


def tree(alphabet, depth, start):
    stack = [tuple(start)]
    while stack:
        s = stack.pop()
        yield s
        if len(s) - len(start) < depth and alive(s):
            for a in alphabet:
                stack.append(s + (a,))


def run(ctx):
    import CifFile
    from CifFile import StarError
    ctx.level = "exploration"
    ctx.rule = ("a case is (word sequence, with or without the CIF2 marker, scanner); the grammar chosen and the content must be those of the first grammar in the order "
                "2.0 (marker only), 1.1, 1.0 whose reference recogniser accepts the words")

    def fn(case, st):
        words, marker, sc, arg = case
        text = ("#\\#CIF_2.0\n" if marker else "") + "\n".join(w if isinstance(w, str) else w[1] for w in words) + "\n"
        g, exp = expect(words, marker)
        kw = dict(grammar=arg, scantype=sc)
        try:
            r = CifFile.ReadCif(io.StringIO(text), **kw)
        except StarError:
            check(g is None, "refused", lambda: "%r (valid %s) refused" % (text, g))
            st["refused"] += 1
            return
        st["read as %s" % g] += 1
        got = R.norm(R.seen(r))
        check(g is not None, "accepted-malformed", lambda: "%r accepted as %s: %s" % (text, r.grammar, short(got)))
        check(r.grammar == g, "wrong-grammar", lambda: "%r read as %s instead of %s" % (text, r.grammar, g))
        check(got == R.norm(exp), "wrong-content", lambda: "%r read as %s instead of %s" % (text, short(got), short(R.norm(exp))))
        e = CifFile.ReadCif(io.StringIO(text), grammar=g, scantype=sc)
        check(R.norm(R.seen(e)) == got and sorted(e.keys()) == sorted(r.keys()) and e.characterset == r.characterset and sorted(e.child_table) == sorted(r.child_table)
              and e.block_input_order == r.block_input_order, "differs-from-explicit", lambda: "%r: automatic and explicit reading with %s differ" % (text, g))

    def g_words():
        A, x, y = REST[0], REST[2], REST[3]
        for seq in tree(REST + ["v", "[v]", "v]", "'it's'"], 5 if ctx.quick else 6, ()):
            for m in (True, False):
                yield seq, m, "standard", "auto"
        for m in (True, False):
            for sc in ("standard", "flex"):
                for seq in tree([REST[1], x, REST[4], REST[6]] + list(VAL), 4 if ctx.quick else 5, (A, x)):
                    yield seq, m, sc, "auto"
                for seq in tree(list(VAL) + [y], 3 if ctx.quick else 4, (A, REST[4], x)):
                    yield seq, m, sc, None
    ctx.explore("words", g_words, fn)

    # three blocks, the deciding construct in each position
    def g_blocks():
        for vs in itertools.product(list(VAL), repeat=3):
            words = []
            for i, v in enumerate(vs):
                words += [T("data", "data_%d" % i, str(i)), T("name", "_x", "_x"), v]
            for m in (True, False):
                for sc in ("standard", "flex"):
                    yield tuple(words), m, sc, "auto"
            words = [REST[0], T("save", "save_f", "f"), REST[2], vs[0], REST[6], REST[3], vs[1], REST[1], REST[4], REST[2], vs[2], "v"]
            for m in (True, False):
                yield tuple(words), m, "standard", "auto"
    ctx.explore("blocks", g_blocks, fn)

    # what counts as the marker
    def f_mark(case, st):
        first, body = case
        text = first + body
        two = first.startswith("#\\#CIF_2.0")
        r = CifFile.ReadCif(io.StringIO(text), grammar="auto")
        check(r.grammar == ("2.0" if two else "1.1"), "marker", lambda: "%r read as %s" % (text, r.grammar))

    ctx.explore("markers", lambda: ((f, b) for f in ("#\\#CIF_2.0\n", "#\\#CIF_2.0 \n", "#\\#CIF_2.0\r\n", "#\\#CIF_1.1\n", "#\\#CIF_2\n", " #\\#CIF_2.0\n", "\n#\\#CIF_2.0\n", "#CIF_2.0\n", "#\\#cif_2.0\n", "", "#\\#CIF_2.0\n#c\n")
                                     for b in ("data_a _x v\n", "data_a\n_x 'q'\n", "data_a\n", "data_a loop_ _x 1 2\n")), f_mark)
