"""C09: the 1.0/1.1 reader accepts exactly the well-formed token sequences."""
import io, itertools
from mc.core import check, Skip, short
from checks import refparse as R


def T(kind, text, value=None):
    return (kind, text, value)


STRUCT = [T("data", "data_a", "a"), T("data", "data_B", "B"), T("data", "DATA_A", "A"), T("name", "_x", "_x"), T("name", "_y", "_y"),
          T("name", "_X", "_X"), T("loop", "loop_"), T("val", "v", "v"), T("val", "'q r'", "q r"),
          T("save", "save_f", "f"), T("save", "Save_A", "A"), T("end", "save_"), T("glob", "global_"), T("stop", "stop_")]

VALS = [T("val", s, v) for s, v in [
    ("v", "v"), ("'q r'", "q r"), ('"q r"', "q r"), ("''", ""), ('""', ""), ("\n;text\n line\n;", "text\n line"), ("\n;\n;", ""), ("\n;\n\n;", "\n"),
    (".", "."), ("?", "?"), ("'it's'", "it's"), ('"a"b"', 'a"b'), ("a'b", "a'b"), ('a"b', 'a"b'), ("a#b", "a#b"), ("a_b", "a_b"), ("a;b", "a;b"),
    ("-1.5(3)e-2", "-1.5(3)e-2"), ("'#x'", "#x"), ("'_x'", "_x"), ("'loop_'", "loop_"), ("'data_x'", "data_x"), ("loopx", "loopx"), ("save", "save"),
    ("data", "data"), ("dat_a", "dat_a"), ("global", "global"), ("a]", "a]"), ("a[1]", "a[1]"), ("(x)", "(x)"), (":a", ":a"), ("a:", "a:"), ("a,b", "a,b"),
    ("\n;'\n\"\n;", "'\n\""), ("\n;#c\n#d\n#e\n;", "#c\n#d\n#e"), ("\n;_x y\nloop_\n;", "_x y\nloop_"), ("\n; ;x\n;", " ;x"), ("\\", "\\"), ("'\\'", "\\"),
    ("\n;\\\nab\\\ncd\n;", "abcd"), ("\n;>\\\n>ab\n>;c\n;", "ab\n;c"), ("a'", "a'"), ("'a\tb'", "a\tb"), ("'a''", "a'"), ('"""', '"'), ("^", "^"), ("~`|", "~`|")]]
ONLY10 = [T("val", "[a]", "[a]"), T("val", "[", "["), T("val", "]", "]")]
BADVALS = ["$x", "data_", "loop_ w", "LOOP_ w", "'a", '"a', "'a\nb'", "\n;ab", "stop_", "global_", "stop_x", "global_y"]


def read(CifFile, text, g, **kw):
    return CifFile.ReadCif(io.StringIO(text), grammar=g, **kw)


def make_fn(CifFile):
    from CifFile import StarError

    def fn(case, st):
        toks, g, sep = case
        s, tree = R.status(toks, g)
        text = ("#\\#CIF_2.0\n" if g == "2.0" else "") + R.render(toks, sep) + "\n"
        try:
            r = read(CifFile, text, g)
        except StarError:
            check(s != "ok", "refused-wellformed", lambda: "grammar %s refused %r" % (g, text))
            st["refused"] += 1
            return
        check(s == "ok", "accepted-malformed", lambda: "grammar %s accepted %r as %s" % (g, text, short(R.seen(r))))
        st["accepted"] += 1
        got, exp = R.norm(R.seen(r)), R.norm(tree)
        check(got == exp, "wrong-content", lambda: "grammar %s read %r as %s instead of %s" % (g, text, short(got), short(exp)))
        top = [k for k in r.block_input_order if r.child_table[k].parent is None]
        check([r.child_table[k].block_id for k in top] == [b["name"] for b in tree], "block-order", lambda: "%r" % (top,))
    return fn


def run(ctx):
    import CifFile
    ctx.level = "exploration"
    ctx.rule = ("a case is (token sequence, grammar, separator): every sequence up to the depth whose proper prefixes are all completable, "
                "i.e. all well-formed, all unfinished and all one-token-wrong sequences; verdict and content compared with a reference recogniser")
    ctx.assumptions = ["tokens are separated by white space", "frame names are not repeated inside one block (except that a frame may repeat its block's name)"]
    fn = make_fn(CifFile)

    def g_struct():
        d = 6 if ctx.quick else 7
        for seq, s in R.prefix_tree(STRUCT, d, "1.1"):
            yield seq, "1.1", " "
            if len(seq) < d:
                yield seq, "1.0", "\n"
    ctx.explore("structure", g_struct, fn)

    # deeper, smaller alphabets: loops; frames; several blocks
    n = [T("name", "_%s" % c, "_%s" % c) for c in "abcd"]
    lp, v, w, tx = T("loop", "loop_"), T("val", "v", "v"), T("val", "w", "w"), T("val", "\n;t\nu\n;", "t\nu")

    def g_loops():
        for seq, s in R.prefix_tree([lp, n[0], n[1], n[2], v], 9 if ctx.quick else 11, "1.1", (T("data", "data_a", "a"),)):
            yield seq, "1.1", " "
        for seq, s in R.prefix_tree([v, w, tx], 7 if ctx.quick else 9, "1.0", (T("data", "data_a", "a"), lp, n[0], n[1], n[2])):
            yield seq, "1.0", "\n"
    ctx.explore("loops", g_loops, fn)

    def g_frames():
        al = [T("save", "save_a", "a"), T("save", "save_b", "b"), T("save", "save_c", "c"), T("end", "save_"), T("data", "data_c", "c")]
        it = T("name", "_x", "_x")
        for seq, s in R.prefix_tree(al, 8 if ctx.quick else 10, "1.1", (T("data", "data_a", "a"),)):
            yield seq, "1.1", " "
        al = [T("save", "save_a", "a"), T("save", "save_b", "b"), T("end", "save_"), T("name", "_x", "_x"), v, T("data", "data_b", "b")]
        for seq, s in R.prefix_tree(al, 9 if ctx.quick else 11, "1.1", (T("data", "data_a", "a"),)):
            yield seq, "1.1", " "
    ctx.explore("frames", g_frames, fn)

    def g_values():
        head = (T("data", "data_a", "a"),)
        for g in ("1.0", "1.1"):
            vals = VALS + (ONLY10 if g == "1.0" else [])
            for a in vals:
                yield head + (n[0], a), g, " "
                yield head + (n[0], a), g, "\n"
                yield head + (n[0], a), g, "\t"
            for a, b in itertools.product(vals, repeat=2):
                for sep in (" ", "\n"):
                    yield head + (n[0], a, n[1], b), g, sep
                    yield head + (lp, n[0], n[1], a, b), g, sep
                    yield head + (lp, n[0], a, b, n[1], v), g, sep
            if ctx.quick:
                vals = vals[:18]
            for a, b, c in itertools.product(vals, repeat=3):
                yield head + (lp, n[0], a, b, c, n[1], v), g, " "
    ctx.explore("values", g_values, fn)

    # malformed values anywhere: refused with the library's error
    def fbad(case, st):
        text, g = case
        try:
            r = read(CifFile, text, g)
        except CifFile.StarError:
            return
        check(False, "accepted-malformed", lambda: "grammar %s accepted %r as %s" % (g, text, short(R.seen(r))))

    def g_bad():
        for g in ("1.0", "1.1"):
            bad = BADVALS + ([] if g == "1.0" else ["[a]", "[", "]"])
            for b in bad:
                for pre in ("data_a _x ", "data_a loop_ _x v ", "data_a\n_x v\n_y\n", "data_a loop_ _x _y v v v "):
                    for post in ("", "\n", " _z v\n", "\ndata_b\n_x v\n"):
                        if b in ("'a", '"a') and False:
                            continue
                        yield pre + b + post, g
            for t in ("_x v\n", "v\n", "loop_ _x v\n", "save_f save_\n", "data_a v\n", "data_a _x v v\n", "data_a loop_ v\n", "data_a loop_ _x\n", "data_a _x\n",
                      "data_\n", "data_a loop_ _x v _x v\n", "data_a _x v _X v\n", "data_a loop_ _x _x v v\n", "data_a _x v data_a\n", "data_a _x v data_A _y v\n",
                      "data_a save_\n", "data_a save_f\n", "data_a save_f save_ save_\n", "data_a save_f _x save_\n", "data_a loop_ loop_ _x v\n", "_\n", "data_a _ v\n"):
                yield t, g
    ctx.explore("malformed", g_bad, fbad)
