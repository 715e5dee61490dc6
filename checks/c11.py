"""C11: the compiled and the interpreted scanner agree on every input."""
import io, itertools
from mc.core import check, Skip, short
from checks import refparse as R
from checks.c09 import T, STRUCT, VALS, ONLY10, BADVALS


def outcome(CifFile, text, g, scan):
    try:
        r = CifFile.ReadCif(io.StringIO(text), grammar=g, scantype=scan)
    except CifFile.StarError:
        return "refused"
    return R.seen(r)


def legal(text):
    return all(c in "\t\n\r" or " " <= c <= "~" or (c > "\x7f" and not c.isspace()) for c in text)


def compare(CifFile, text, g, st=None):
    a = outcome(CifFile, text, g, "standard")
    b = outcome(CifFile, text, g, "flex")
    if st is not None:
        st["refused" if a == "refused" else "accepted"] += 1
    if a == b:
        return
    if not legal(text) and "refused" in (a, b):
        return      # characters outside the grammar: either scanner may refuse them
    key = "flex-accepts" if a == "refused" else "flex-refuses" if b == "refused" else "content-differs"
    check(False, key, lambda: "grammar %s, input %r: interpreted %s, compiled %s" % (g, short(text, 200), short(a, 300), short(b, 300)))


CTX = ["data_a\n_x %s\n_y z\n", "data_a\n_x %s", "data_a loop_ _x\n%s\n", "data_a\n_x\n;t%s\n;\n_y z\n", "data_a _x 'q%s'\n", "data_a _x \"%s\" _y z\n", "%s\ndata_a _x v\n", "data_a%s_x v"]


def run(ctx):
    import CifFile
    ctx.level = "exploration"
    ctx.rule = "a case is (character or token string, context, grammar): every string up to the bound; both scanners must refuse it or give identical content"
    fn = lambda case, st: compare(CifFile, case[0], case[1], st)

    def g_chars():
        al = ["a", "_", "'", '"', "#", ";", " ", "\n", "\r", "\t", "[", "]", "{", "$", "\\", "\u00e9", "data_", "loop_", "save_", "stop_", "global_"]
        n = 3 if ctx.quick else 4
        for k in range(n + 1):
            for s in itertools.product(al, repeat=k):
                s = "".join(s)
                for i, c in enumerate(CTX):
                    if k == n and ctx.quick and i not in (0, 3, 4):
                        continue
                    yield c % s, "1.1"
                    if k < n:
                        yield c % s, "1.0"
    ctx.explore("characters", g_chars, fn)

    def g_deep():
        n = 6 if ctx.quick else 8
        for al, cs in ((["'", "a", " ", "\n", '"'], (0, 4, 5)), (["\n", ";", "a", " ", "#"], (0, 3)), (["\r", "\n", ";", "a"], (0, 3, 7)), (["#", "\n", "'", "_z"], (0, 6, 7))):
            for k in range(n + 1):
                for s in itertools.product(al, repeat=k):
                    for c in cs:
                        yield CTX[c] % "".join(s), "1.1"
    ctx.explore("delimiters", g_deep, fn)

    def g_each():
        for o in list(range(0, 0x180)) + [0x2028, 0x3000, 0xfeff, 0xffff, 0x10000, 0x1F600]:
            for c in CTX:
                for w in ("%s", "a%s", "%sa", "a%sb"):
                    for g in ("1.0", "1.1"):
                        yield c % (w % chr(o)), g
    ctx.explore("every-character", g_each, fn)

    def g_toks():
        d = 5 if ctx.quick else 6
        for seq, s in R.prefix_tree(STRUCT, d, "1.1"):
            yield R.render(seq) + "\n", "1.1"
        for g in ("1.0", "1.1"):
            for a, b in itertools.product(VALS + ONLY10, repeat=2):
                yield "data_a _x " + R.render((a, ("name", "_y", "_y"), b)) + "\n", g
                yield "data_a loop_ _x " + R.render((a, b), "\n") + "\n_y z\n", g
            for b in BADVALS:
                for pre in ("data_a _x ", "data_a loop_ _x v ", "data_a\n_x v\n_y\n"):
                    for post in ("", "\n", " _z v\n", "\ndata_b\n_x v\n"):
                        yield pre + b + post, g
    ctx.explore("tokens", g_toks, fn)

    # token store growth and input buffer refills: token counts and token lengths
    # around every multiple of the store size (4192) and of the flex buffer (16384)
    def g_big():
        for n in [4190 + i for i in range(8)] + [8380 + i for i in range(8)] + ([] if ctx.quick else [12570 + i for i in range(10)]):
            yield "data_a loop_ _x " + "v " * n, "1.1"
            yield "data_a " + "".join("_x%d v\n" % i for i in range(n // 2)), "1.1"
            yield "data_a _x\n;t\n" + "l\n" * n + ";\n_y z\n", "1.1"
        for n in [2040, 2048, 8180, 8192, 16380, 16384, 32768] + ([] if ctx.quick else [65536, 131072]):
            for k in range(-14, 6):
                m = n + k
                yield "data_a _x " + "v" * m + "\n_y z\n", "1.1"
                yield "data_a _x '" + "v" * m + "' _y z\n", "1.1"
                yield "data_a _x\n;" + "v" * m + "\n;\n_y z\n", "1.1"
                yield "#" + "c" * m + "\ndata_a _x v\n", "1.1"
                yield "data_a" + " " * m + "_x 'a b'\n", "1.1"
                yield "data_a\n_x\n;" + "v\n" * (m // 2) + ";\n_y z\n", "1.1"
                yield "data_a\n_x\n;" + "vw\n" * (m // 3) + ";\n_y 'z'\n", "1.1"
                yield "data_a\n_x\n;" + "\u00e9" * m + "\n;\n_y 'z'\n", "1.1"
                yield "data_a" + "\n" * m + ";v\n;\n", "1.1"
    ctx.explore("sizes", g_big, fn)

    # histories: what was read (or refused) before makes no difference
    H = ["data_a _x v\n", "data_a _x 'q r'\n_y\n;t\nu\n;\n", "data_a _x\n;unterminated\nline\n", "data_a _x 'unterminated\n", "data_a _x v v\n", "", "data_a\n_x\n;t",
         "data_a loop_ _x " + "v " * 4195, "data_a loop_ _x _y v", "data_a _x [v]", "#c\n", "data_a save_f _x v save_ _y z", "data_a _x v\n_y ]\n", "data_a _x \u00e9\n"]

    ctx.assumptions = ["for text with characters that no CIF 1 grammar allows (control characters, Unicode white space) either scanner may refuse"]

    def fh(case, st):
        hist, last, g = case
        want = outcome(CifFile, H[last], g, "standard")
        for i, sc in hist:
            outcome(CifFile, H[i], g, sc)
        got = outcome(CifFile, H[last], g, "flex")
        check(got == want, "history", lambda: "grammar %s after reading %s: %r gives %s instead of %s" % (
            g, [(short(H[i], 60), s) for i, s in hist], short(H[last], 60), short(got, 200), short(want, 200)))

    def g_hist():
        n = len(H)
        for g in ("1.1", "1.0"):
            for i in range(n):
                for l in range(n):
                    for sc in ("flex", "standard"):
                        yield ((i, sc),), l, g
            for i, j in itertools.product(range(n), repeat=2):
                for l in range(n):
                    if g == "1.1" or not ctx.quick:
                        yield ((i, "flex"), (j, "flex")), l, g
    ctx.explore("histories", g_hist, fh)
