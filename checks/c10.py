"""C10: the 2.0/STAR2 reader accepts exactly the well-formed token sequences."""
import io, itertools
from mc.core import check, Skip, short
from checks import refparse as R
from checks.c09 import T, make_fn, STRUCT

OPS = [T("[", "["), T("]", "]"), T("{", "{"), T("}", "}")]
COMMA = T(",", ",")
KEYS = [T("key", '"k":', "k"), T("key", "'m':", "m")]
V, W = T("val", "v", "v"), T("val", "'q r'", "q r")
HEAD = (T("data", "data_a", "a"),)
N = [T("name", "_%s" % c, "_%s" % c) for c in "abcd"]

VALS = [T("val", s, v) for s, v in [
    ("v", "v"), ("'q r'", "q r"), ('"q r"', "q r"), ("''", ""), ('""', ""), ("\n;text\n line\n;", "text\n line"), ("\n;\n;", ""), ("\n;\n\n;", "\n"),
    (".", "."), ("?", "?"), ("'a\"b'", 'a"b'), ('"it\'s"', "it's"), ("a'b", "a'b"), ('a"b', 'a"b'), ("a#b", "a#b"), ("a_b", "a_b"), ("a;b", "a;b"), ("-1.5(3)e-2", "-1.5(3)e-2"),
    ("'''x'''", "x"), ('"""x"""', "x"), ("''''x'''", "'x"), ('"""\n"y"\n\n;\n"""', '\n"y"\n\n;\n'), ("'''a''b'''", "a''b"), ("''''''", ""), ('""""""', ""),
    ("'''\"\"\"'''", '"""'), ('"""\'\'\'"""', "'''"), ("'''\n'''", "\n"), ("'''#x\n_y z\ndata_q\n'''", "#x\n_y z\ndata_q\n"), ("'[a]'", "[a]"), ("'{'", "{"), ("']'", "]"),
    ("loopx", "loopx"), ("loop_x", "loop_x"), ("save", "save"), ("data", "data"), ("(x)", "(x)"), ("a:", "a:"), (":", ":"), (":v", ":v"), ("\\", "\\"), ("'\\'", "\\"), ("'\\\\'", "\\\\"),
    ("\n;'''\n\"\"\"\n;", "'''\n\"\"\""), ("\n;\\\nab\\\ncd\n;", "abcd"), ("\n;>\\\n>ab\n>;c\n;", "ab\n;c"), ("\n;[a\n {b\n;", "[a\n {b"),
    ("\u00e9", "\u00e9"), ("'\u03b1 \u4e2d'", "\u03b1 \u4e2d"), ("\U0001F600", "\U0001F600"), ("'a\tb'", "a\tb"), ("^", "^"), ("~`|", "~`|"), ("<>=!@%&*-+/", "<>=!@%&*-+/")]]
ONLY2 = [T("val", "a,b", "a,b"), T("val", ",", ","), T("val", "a,", "a,")]
BADVALS = ["$x", "data_", "loop_ w", "'a", '"a', "'a\nb'", "\n;ab", "stop_", "global_", "'''a", '"""a\n', "'''a''", "[", "[v", "{", '{"k":v', "{v}", "{v:v}", '{"k" v}', "]", "}", "[}", "{]", "[v}", '{"k":v]',
           '{"k":}', '{:v}', "[loop_]", "[data_x]", "[_x]", "{_x:v}", "[save_]", '{"k":_x}', "'a''", '"a""']


def inside(seq):
    """Key tokens appear only directly inside a table (elsewhere `"k":v` is not
    separated by white space, which is outside the domain)."""
    st = []
    for t in seq:
        if t[0] in ("[", "{"):
            st.append(t[0])
        elif t[0] in ("]", "}"):
            if st:
                st.pop()
        elif t[0] == "key" and (not st or st[-1] != "{"):
            return False
    return True


def render(toks, g, sep):
    return ("#\\#CIF_2.0\n" if g == "2.0" else "") + R.render(toks, sep) + "\n"


def tight(toks, g):
    """Brackets without surrounding blanks (allowed by both grammars)."""
    out, prev = "", None
    for k, text, _ in toks:
        if prev is not None and not text.startswith("\n"):
            # a blank is needed between two values and before an opening bracket,
            # not after an opening one, before a closing one or next to a comma
            need = not (prev in ("[", "{", "key", ",") or k in ("]", "}", ","))
            if prev == "]" and k not in ("]", "}", ","):
                need = True
            if need:
                out += " "
        out += text
        prev = k
    return ("#\\#CIF_2.0\n" if g == "2.0" else "") + out + "\n"


def run(ctx):
    import CifFile
    from CifFile import StarError
    ctx.level = "exploration"
    ctx.rule = ("a case is (token sequence, grammar, layout): every sequence up to the depth whose proper prefixes are all completable; "
                "verdict and content compared with a reference recogniser")
    ctx.assumptions = ["values are separated by white space or list/table punctuation", "table keys are distinct", "frame names are not repeated inside one block"]
    base = make_fn(CifFile)

    def fn(case, st):
        toks, g, sep = case
        if sep != "tight":
            return base(case, st)
        s, tree = R.status(toks, g)
        text = tight(toks, g)
        try:
            r = CifFile.ReadCif(io.StringIO(text), grammar=g)
        except StarError:
            check(s != "ok", "refused-wellformed", lambda: "grammar %s refused %r" % (g, text))
            return
        check(s == "ok", "accepted-malformed", lambda: "grammar %s accepted %r as %s" % (g, text, short(R.seen(r))))
        got, exp = R.norm(R.seen(r)), R.norm(tree)
        check(got == exp, "wrong-content", lambda: "grammar %s read %r as %s instead of %s" % (g, text, short(got), short(exp)))

    def g_struct():
        d = 5 if ctx.quick else 7
        for g in ("2.0", "STAR2"):
            for seq, s in R.prefix_tree(STRUCT + OPS[:2], d, g):
                yield seq, g, " "
    ctx.explore("structure", g_struct, fn)

    def g_cont():
        d = 7 if ctx.quick else 9
        for g in ("2.0", "STAR2"):
            al = OPS + KEYS[:1] + [V, W] + ([COMMA] if g == "STAR2" else [])
            for seq, s in R.prefix_tree(al, d if g == "2.0" else d + 1, g, HEAD + (N[0],)):
                if not inside(seq):
                    continue
                yield seq, g, " "
                if s == "ok":
                    yield seq, g, "\n"
                    yield seq, g, "tight"
    ctx.explore("containers", g_cont, fn)

    def dupkeys(seq):
        # distinct keys in every table
        st = []
        for t in seq:
            if t[0] in ("[", "{"):
                st.append(set())
            elif t[0] in ("]", "}"):
                if st:
                    st.pop()
            elif t[0] == "key" and st:
                if t[2] in st[-1]:
                    return True
                st[-1].add(t[2])
        return False

    def g_cont2():
        # two keys; containers inside loops followed by further items
        d = 8 if ctx.quick else 10
        for g in ("2.0", "STAR2"):
            al = [OPS[2], OPS[3]] + KEYS + [V] + ([COMMA] if g == "STAR2" else [])
            for seq, s in R.prefix_tree(al, d if g == "2.0" else d + 1, g, HEAD + (N[0],)):
                if inside(seq) and not dupkeys(seq):
                    yield seq, g, " "
                    if s == "ok":
                        yield seq, g, "tight"
            al = [OPS[0], OPS[1], V, N[1]] + ([COMMA] if g == "STAR2" else [])
            for seq, s in R.prefix_tree(al, d, g, HEAD + (T("loop", "loop_"), N[0])):
                yield seq, g, " "
            al = [T("save", "save_a", "a"), T("save", "save_b", "b"), T("save", "save_c", "c"), T("end", "save_"), T("data", "data_c", "c")]
            for seq, s in R.prefix_tree(al, 7 if ctx.quick else 9, g, HEAD):
                yield seq, g, " "
            al = [T("save", "save_a", "a"), T("save", "save_b", "b"), T("end", "save_"), T("name", "_x", "_x"), V]
            for seq, s in R.prefix_tree(al, 8 if ctx.quick else 10, g, HEAD):
                yield seq, g, " "
    ctx.explore("mixed", g_cont2, fn)

    # every value form in every position
    def g_values():
        for g in ("2.0", "STAR2"):
            vals = VALS + (ONLY2 if g == "2.0" else [])
            c = (COMMA,) if g == "STAR2" else ()
            o, cl, oc, cc = OPS[:1], OPS[1:2], OPS[2:3], OPS[3:]
            o, cl, oc, cc = tuple(o), tuple(cl), tuple(oc), tuple(cc)
            for a in vals:
                for sep in (" ", "\n", "\t", "tight"):
                    yield HEAD + (N[0], a), g, sep
                    yield HEAD + (N[0],) + o + (a,) + cl, g, sep
                    yield HEAD + (N[0],) + oc + (KEYS[0], a) + cc, g, sep
                    yield HEAD + (N[0],) + o + o + (a,) + cl + cl + (N[1], V), g, sep
            for a, b in itertools.product(vals, repeat=2):
                for sep in (" ", "\n", "tight"):
                    yield HEAD + (N[0], a, N[1], b), g, sep
                    yield HEAD + (T("loop", "loop_"), N[0], a, b, N[1], V), g, sep
                    yield HEAD + (N[0],) + o + (a,) + c + (b,) + cl, g, sep
                    yield HEAD + (N[0],) + oc + (KEYS[0], a) + c + (KEYS[1], b) + cc, g, sep
                    yield HEAD + (T("loop", "loop_"), N[0], N[1]) + o + (a,) + cl + (b, N[2], V), g, sep
            # every delimited form as key
            for a in vals:
                if a[1][:1] in "'\"":
                    yield HEAD + (N[0],) + oc + (T("key", a[1] + ":", a[2]), V) + cc, g, " "
                    for b in vals:
                        yield HEAD + (N[0],) + oc + (T("key", a[1] + ":", a[2]), b) + cc, g, "tight"
    ctx.explore("values", g_values, fn)

    def fbad(case, st):
        text, g = case
        try:
            r = CifFile.ReadCif(io.StringIO(text), grammar=g)
        except StarError:
            return
        check(False, "accepted-malformed", lambda: "grammar %s accepted %r as %s" % (g, text, short(R.seen(r))))

    def g_bad():
        for g in ("2.0", "STAR2"):
            bad = BADVALS + ([",", "[,v]", "[v,]", "[v,,v]", '{"k":v,}'] if g == "STAR2" else ['{"k":v "m"}', '{"k":v m}', '{"k":v "m":}'])
            mark = "#\\#CIF_2.0\n" if g == "2.0" else ""
            sp = ", " if g == "STAR2" else " "
            for b in bad:
                for pre, post in (("data_a _x ", ""), ("data_a loop_ _x v ", ""), ("data_a\n_x v\n_y\n", ""), ("data_a _x [v" + sp, "]"), ('data_a _x {"z":', "}"),
                                  ('data_a _x {"k":v' + sp + '"m":', "}"), ("data_a loop_ _x [v] ", ""), ("data_a save_f _x ", " save_")):
                    for tail in ("", "\n", " _z v\n", "\ndata_b\n_x v\n"):
                        yield mark + pre + b + post + tail, g
            for t in ("_x v\n", "v\n", "loop_ _x v\n", "save_f save_\n", "data_a v\n", "data_a _x v v\n", "data_a loop_ v\n", "data_a loop_ _x\n", "data_a _x\n",
                      "data_\n", "data_a loop_ _x v _x v\n", "data_a _x v _X v\n", "data_a loop_ _x _x v v\n", "data_a _x v data_a\n", "data_a _x v data_A _y v\n",
                      "data_a save_\n", "data_a save_f\n", "data_a save_f save_ save_\n", "data_a save_f _x save_\n", "data_a loop_ loop_ _x v\n", "_\n", "data_a _ v\n",
                      "data_a [v]\n", "data_a _x [v] v\n", "data_a _x [v] [v]\n", "data_a _x {} {}\n", "data_a loop_ _x _y [v]\n", "data_a loop_ _x _y [v] v {}\n"):
                yield mark + t, g
        for t in ("data_a _x v\n", " #\\#CIF_2.0\ndata_a _x v\n", "\n#\\#CIF_2.0\ndata_a _x v\n", "#\\#CIF_1.1\ndata_a _x v\n", "#\\#cif_2.0\ndata_a _x v\n"):
            yield t, "2.0"
    ctx.explore("malformed", g_bad, fbad)
