"""C13: layout, comments, line ends, keyword case and kind of source never change content."""
import io, itertools, os
from mc.core import check, Skip, short
from checks import refparse as R
from checks.c09 import T

N = lambda s: T("name", s, s)
V = lambda s, v=None: T("val", s, s if v is None else v)
D, L, S, E = (lambda s: T("data", "data_" + s, s)), T("loop", "loop_"), (lambda s: T("save", "save_" + s, s)), T("end", "save_")
TX = T("val", "\n;text\n# not a comment\n;", "text\n# not a comment")
K = lambda s, v: T("key", s, v)

BASES1 = [
    (D("a"), N("_x"), V("v"), N("_y"), V("'q r'", "q r")),
    (D("a"), L, N("_x"), N("_y"), V("1"), V("'#2'", "#2")),
    (D("a"), N("_x"), TX, N("_y"), V('"it\'s"', "it's")),
    (D("a"), S("f"), N("_x"), V("v"), E, N("_y"), V("w")),
    (D("a"), L, N("_x"), TX, V("v"), TX),
    (D("a"), D("b"), N("_x"), V("."), D("c"), N("_y"), V("z;z")),
]
BASES2 = [
    (D("a"), N("_x"), T("[", "["), V("v"), V("'q r'", "q r"), T("]", "]")),
    (D("a"), N("_x"), T("{", "{"), K("'k':", "k"), V("v"), K('"""m""":', "m"), V("w"), T("}", "}")),
    (D("a"), L, N("_x"), T("[", "["), T("]", "]"), T("{", "{"), T("}", "}")),
    (D("a"), N("_x"), T("[", "["), TX, V("'''t\nu'''", "t\nu"), T("]", "]"), N("_y"), V("v")),
    (D("a"), S("f"), N("_x"), T("[", "["), V("v"), T("]", "]"), E),
]
SEPS = [" ", "\n", "\t", "\n\n  ", " #c\n", "\n#c 'd\n#_e [f\n"]
MORE = ["  ", " \n ", "\t\t", "\n \n", "\n#\n", " # ;x\n", "\n#;x\n ", "\n#data_z\n", "\n#loop_ _z\n\t", " #\"\n", "\n\n\n", " \t \n", "\n#'''\n", "\n#a\n\n#b\n", " #\u00e9\n", "\n#\\\n", " ## ## \n"]
CASES = lambda w: sorted({w.lower(), w.upper(), w.capitalize(), w[0] + w[1:].upper(), "".join(c.upper() if i % 2 else c for i, c in enumerate(w))})


def build(toks, seps, head, first, last, g):
    out = first
    for i, (k, text, _) in enumerate(toks):
        if i:
            s = seps[i - 1]
            if text.startswith("\n"):       # the text field brings its own line end
                s = s[:-1] if s.endswith("\n") and s.strip(" \t\n") else s.rstrip(" \t") if not s.strip() else s
                if s.strip() and not s.lstrip(" \t").startswith("#") and not s.startswith("\n"):
                    s = " " + s
            if toks[i - 1][0] == "key" and s.lstrip(" \t\n")[:1] == "#" and s[:1] not in " \t\n":
                s = " " + s
            out += s
        out += text
    return head + out + last


def run(ctx):
    import CifFile
    from CifFile import StarError
    ctx.level = "exploration"
    ctx.rule = "a case is (token sequence, gap assignment or spelling, grammar, scanner); the content read must equal the tree the tokens spell out"
    ctx.assumptions = ["no white space between a table key and its colon"]

    def seen(src, g, sc="standard"):
        return R.norm(R.seen(CifFile.ReadCif(src, grammar=g, scantype=sc)))

    def fn(case, st):
        toks, seps, first, last, g, sc, eol = case
        s, tree = R.status(toks, g if g != "auto" else "2.0")
        assert s == "ok", (toks, g)
        text = build(toks, seps, "#\\#CIF_2.0\n" if g == "2.0" else "", first, last, g).replace("\n", eol)
        try:
            got = seen(io.StringIO(text, newline=""), g, sc)
        except StarError:
            check(False, "refused", lambda: "grammar %s %s refused %r" % (g, sc, text))
        exp = R.norm(tree)
        check(got == exp, "content", lambda: "grammar %s %s read %r as %s instead of %s" % (g, sc, text, short(got), short(exp)))

    GS1 = [("1.1", "standard"), ("1.1", "flex"), ("1.0", "flex"), ("2.0", "standard"), ("STAR2", "standard"), ("1.0", "standard")]

    def g_gaps():
        for toks in BASES1:
            k = len(toks) - 1
            for seps in itertools.product(SEPS if k <= 4 else SEPS[:5] if not ctx.quick else SEPS[1:5], repeat=k):
                yield toks, seps, "", "\n", "1.1", "standard", "\n"
                yield toks, seps, "", "", "1.1", "flex", "\n"
                if not ctx.quick or k <= 4:
                    yield toks, seps, "", "\n", "2.0", "standard", "\n"
                    yield toks, seps, "", "\n", "1.1", "standard", "\r\n"
        for toks in BASES2:
            k = len(toks) - 1
            for seps in itertools.product(SEPS if k <= 4 else SEPS[:5] if not ctx.quick else SEPS[1:5] if k <= 5 else SEPS[3:5], repeat=k):
                yield toks, seps, "", "\n", "2.0", "standard", "\n"
                if not ctx.quick or k <= 4:
                    yield toks, seps, "", "", "STAR2", "standard", "\n"
    ctx.explore("gaps", g_gaps, fn)

    def g_single():
        alls = SEPS + MORE
        for toks, gs in [(t, GS1) for t in BASES1] + [(t, [("2.0", "standard"), ("STAR2", "standard")]) for t in BASES2]:
            k = len(toks) - 1
            for g, sc in gs:
                for eol in ("\n", "\r\n", "\r"):
                    for i in range(k):
                        for s in alls:
                            if "\u00e9" in s and g in ("1.0", "1.1"):
                                s = s.replace("\u00e9", "e")
                            yield toks, (" ",) * i + (s,) + (" ",) * (k - i - 1), "", "\n", g, sc, eol
                            yield toks, ("\n",) * i + (s,) + ("\n",) * (k - i - 1), "", "", g, sc, eol
                    for first in ("", "\n", " ", "#c\n", "#\\#CIF_1.1\n", "\n\n#c\n\n", "\t#c\n", "\ufeff"[1:]):
                        for last in ("", "\n", " ", "\n\n", " #c", " #c\n", "\n#c", "\n  ", "\t", "\n#'\n"):
                            yield toks, (" ",) * k, first, last, g, sc, eol
                            yield toks, ("\n",) * k, first, last, g, sc, eol
    ctx.explore("every-separator", g_single, fn)

    # reserved words in any letter case; names keep theirs
    def respell(t, w):
        k, text, v = t
        if k in ("data", "save", "loop", "end"):
            n = len("loop_" if k in ("loop",) else "data_" if k == "data" else "save_")
            return (k, w + text[n:], v)
        return t

    def g_case():
        for toks, gs in [(t, GS1) for t in BASES1] + [(t, [("2.0", "standard"), ("STAR2", "standard")]) for t in BASES2]:
            idx = [i for i, t in enumerate(toks) if t[0] in ("data", "save", "loop", "end")]
            opts = [CASES({"data": "data_", "save": "save_", "loop": "loop_", "end": "save_"}[toks[i][0]]) for i in idx]
            for pick in itertools.product(*opts):
                tk = list(toks)
                for i, w in zip(idx, pick):
                    tk[i] = respell(tk[i], w)
                for g, sc in gs:
                    yield tuple(tk), ("\n",) * (len(tk) - 1), "", "\n", g, sc, "\n"
        for w in itertools.product("lL", "oO", "oO", "pP"):
            for g, sc in GS1:
                yield (D("a"), T("loop", "".join(w) + "_"), N("_x"), V("v")), (" ",) * 3, "", "\n", g, sc, "\n"
        for kw, mk in (("data", "data"), ("save", "save")):
            for w in itertools.product(*[(c, c.upper()) for c in kw]):
                w = "".join(w) + "_"
                for g, sc in GS1:
                    if kw == "data":
                        yield (T("data", w + "Ab", "Ab"), N("_x"), V("v")), (" ",) * 2, "", "\n", g, sc, "\n"
                    else:
                        yield (D("a"), T("save", w + "Ab", "Ab"), N("_x"), V("v"), E), (" ",) * 4, "", "\n", g, sc, "\n"
                        yield (D("a"), S("f"), N("_x"), V("v"), T("end", w), N("_y"), V("z")), (" ",) * 6, "", "\n", g, sc, "\n"
    ctx.explore("keyword-case", g_case, fn)

    # other delimiters for the same text
    def forms(v, g):
        two = g in ("2.0", "STAR2")
        if v and not v.startswith((";", "_", "#", "$", "[", "]", "'", '"')) and not any(c in " \t\n" for c in v) and v.lower() not in ("loop_", "stop_", "global_") \
                and not v.lower().startswith(("data_", "save_", "stop_", "global_")) and not (two and any(c in v for c in "[]{},")):
            yield v
        for q in "'\"":
            if "\n" not in v and (q not in v if two else not any(v[i] == q and v[i + 1:i + 2] in ("", " ", "\t") for i in range(len(v)))):
                yield q + v + q
            if two and q * 3 not in v and not v.endswith(q):
                yield q * 3 + v + q * 3
        if "\n;" not in v and not v.startswith(";") or True:
            if "\n;" not in v and not v.split("\n")[0].endswith("\\"):
                yield "\n;" + v + "\n;"

    vals = ["v", "", "a b", "it's", 'say"x', "a'b c", "#x", "_x", "x_y", ".5", "1.2(3)", "loop_", "data_x", "loop_x", "a;b", "x\\", "a\tb", "l1\nl2", "a\n\nb", "a,b", "x:y", " lead", "trail ", "\nfirst", "last\n", "a#b",
            "'q'", '"q"', "a' b" + '" c', "\\n", "é".encode("ascii", "ignore").decode() or "e"]

    def f_forms(case, st):
        form, v, g, sc, ctxt = case
        text = ("#\\#CIF_2.0\n" if g == "2.0" else "") + ctxt % form
        try:
            b = CifFile.ReadCif(io.StringIO(text), grammar=g, scantype=sc)["a"]
        except StarError:
            check(False, "form-refused", lambda: "grammar %s %s refused %r" % (g, sc, text))
        x = b["_x"]
        while isinstance(x, list):
            x = x[0]
        check(x == v and b["_y"] == "z", "form-content", lambda: "grammar %s %s: %r read as %r instead of %r (then %r)" % (g, sc, text, x, v, b["_y"]))

    def g_forms():
        for g, sc in GS1:
            for v in vals:
                for f in forms(v, g):
                    for c in ("data_a _x %s _y z", "data_a _x %s\n_y z\n", "data_a _x %s\t_y 'z'\n", "data_a _y z loop_ _x %s\n", "data_a _y z loop_ _x %s w #c", "data_a _y z _x %s", "data_a\n_x %s\n#c\n_y z") + \
                            (("data_a _x [ %s ] _y z", "data_a _y z _x [%s w]\n".replace(" w", ", w" if g == "STAR2" else " w"), "data_a _y z loop_ _x [%s]") if g in ("2.0", "STAR2") else ()):
                        yield f, v, g, sc, c
    ctx.explore("delimiters", g_forms, f_forms)

    # the kind of source
    top = ctx.scratch
    TEXTS = ["data_a _x v\n_y\n;t\nu\n;\nloop_ _l 1 'b c'\n", "#\\#CIF_2.0\ndata_a _x [v {'k':'\u00e9'}]\n_y '''t\nu'''\n", "data_a _x '\u00e9\u4e2d'\n", ""]

    def f_src(case, st):
        text, g, eol, kind, name, bom = case
        raw = text.replace("\n", eol).encode("utf-8")
        if bom:
            raw = b"\xef\xbb\xbf" + raw
        want = seen(io.StringIO(text), g)
        d = os.path.join(top, "src%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(raw)
        cwd = os.getcwd()
        try:
            if kind == "path":
                got = seen(p, g)
            elif kind == "relative":
                os.chdir(d)
                got = seen(name, g)
            elif kind == "url":
                import pathlib
                got = seen(pathlib.Path(p).as_uri(), g)
            elif kind == "binary":
                with open(p, "rb") as f:
                    got = seen(f, g)
            elif kind == "text":
                with open(p, "r", encoding="utf-8-sig", newline="") as f:
                    got = seen(f, g)
            elif kind == "bytesio":
                got = seen(io.BytesIO(raw), g)
            elif kind == "class":
                got = R.norm(R.seen(CifFile.CifFile(p, grammar=g)))
            elif kind == "class-stream":
                got = R.norm(R.seen(CifFile.CifFile(io.BytesIO(raw), grammar=g)))
        finally:
            os.chdir(cwd)
            os.remove(p)
        check(got == want, "source", lambda: "%s %r: %s instead of %s" % (kind, name, short(got), short(want)))

    def g_src():
        for t in TEXTS:
            for g in ("1.1", "auto", "1.0", "2.0", "STAR2"):
                if g == "2.0" and not t.startswith("#\\#CIF_2.0") and t:
                    continue
                if g in ("1.1", "1.0") and t.startswith("#\\#CIF_2"):
                    continue
                for eol in ("\n", "\r\n", "\r"):
                    for bom in (False, True):
                        for kind in ("path", "relative", "url", "binary", "text", "bytesio", "class", "class-stream"):
                            for name in ("f.cif", "a b.cif", "x#y.cif", "50%25.cif", "\u00e9.cif", "a?b.cif", "C.CIF", "file"):
                                yield t, g, eol, kind, name, bom
    ctx.explore("sources", g_src, f_src)
