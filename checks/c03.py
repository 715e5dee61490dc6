"""C03: output lines respect wraplength/maxoutlength and never change data."""
import io, itertools, re
from mc.core import check, Skip, short
from checks.c02 import file_view, newfile, newblock

TOK = re.compile(r"""'[^\n]*'(?=\s|$)|"[^\n]*"(?=\s|$)|\S+""")


def outside_text(lines):
    """Lines that are not part of a semicolon text field, with the closing line's remainder."""
    inside = False
    for l in lines:
        if l.startswith(";"):
            inside = not inside
            if inside:
                continue
            l = l[1:]
        if not inside:
            yield l


def run(ctx):
    import CifFile
    from CifFile import StarError
    from CifFile.StarFile import StarList as SL, StarDict as SD
    ctx.level = "exploration"
    ctx.rule = ("a case is (content, output grammar, wraplength, maxoutlength, way of setting it); non-trivial = written; every line of "
                "the text is measured, and the text is read back and compared with the original data")
    ctx.assumptions = ["data names and table keys fit the maximum; wraplength <= maxoutlength; maxoutlength >= 40"]

    def measure(cf, g, wrap, mx, plain, kw):
        exp = file_view(cf)
        s = cf.WriteOut(**kw)
        lines = s.split("\n")
        while lines and (not lines[0].strip() or lines[0].startswith("#")):      # header comment
            lines.pop(0)
        worst = max(lines, key=len)
        check(len(worst) <= mx, "too-long", lambda: "line of %d characters (limit %d, wrap %d, grammar %s): %s" % (len(worst), mx, wrap, g, short(worst)))
        if plain:
            for l in outside_text(lines):
                if len(l) > wrap and not l.startswith("#"):
                    n = TOK.findall(l)
                    check(len(n) <= 1, "not-wrapped", lambda: "line of %d characters with %d tokens (wrap %d): %s" % (len(l), len(n), wrap, short(l)))
        check(file_view(cf) == exp, "writing-changes-data", "block content changed by writing")
        r = CifFile.ReadCif(io.StringIO(s), grammar=g)
        r.set_grammar(g)
        got = file_view(r)
        check(got["blocks"] == exp["blocks"], "data", lambda: "wrote %s read %s text %s" % (short(exp["blocks"]), short(got["blocks"]), short(s[s.find("data_"):])))

    def setup(g, mx, how):
        if how == "init":
            cf = CifFile.CifFile(maxoutlength=mx)
            cf.set_grammar(g)
            kw = {}
        else:
            cf = newfile(CifFile, g)
            kw = {"maxoutlength": mx}
        return cf, kw

    def f_item(case, st):
        v, nl, g, wrap, mx, how = case
        cf, kw = setup(g, mx, how)
        kw["wraplength"] = wrap
        b = newblock(CifFile, g)
        b["_" + "n" * (nl - 1)] = v
        b["_p"] = [v, "x", v]
        b["_q"] = ["y z", v, v]
        b.CreateLoop(["_p", "_q"])
        b["_last"] = "e"
        cf["t"] = b
        measure(cf, g, wrap, mx, True, kw)

    def lengths(mx, wrap):
        s = set([0, 1, 2, 9, 10, 11, 38, 39, 40, 41, 42])
        for c in (wrap, wrap - 40, mx, 80, 60, 2 * mx, mx - 10, mx - 40):
            s.update(range(max(0, c - 8), c + 9))
        return sorted(s)

    LIMS = [(40, 40), (40, 80), (80, 80), (79, 81), (60, 100), (80, 100), (100, 120), (80, 256), (80, 2048), (120, 2048)]

    def g_item():
        for wrap, mx in LIMS:
            for n in lengths(mx, wrap):
                for form in ("x", "x ", "'", "x\n", ";\n", "\\", "\n;x", "[", "#", "'\""):
                    v = (form * (n // len(form) + 1))[:n]
                    if len(form) > 1 and n > 120 and form[0] != "x" and ctx.quick:
                        v = (form[0] * 20 + form) * 6
                    for g in ("1.1", "2.0"):
                        for nl in ((2, min(75, mx - 1)) if form in ("x", "'") else (2,)):
                            yield v, nl, g, wrap, mx, "arg"
                            if form == "x":
                                yield v, nl, g, wrap, mx, "init"
    ctx.explore("items", g_item, f_item)

    # the limits hold in every block and save frame, at any depth
    def f_place(case, st):
        v, place, g, wrap, mx, how = case
        cf, kw = setup(g, mx, how)
        kw["wraplength"] = wrap
        for i in range(3):
            b = newblock(CifFile, g)
            b["_k"] = v
            b["_p"] = [v, "x", v]
            b["_q"] = ["y z", v, v]
            b.CreateLoop(["_p", "_q"])
            b["_last"] = "e%d" % i
            if i == 0 or place == "blocks":
                cf["t%d" % i] = b
            else:
                cf.NewBlock("t%d" % i, b, parent="t0" if place == "frames" else "t%d" % (i - 1))
        measure(cf, g, wrap, mx, True, kw)

    def g_place():
        for wrap, mx in LIMS if not ctx.quick else LIMS[:2] + [(60, 100), (80, 2048)]:
            for n in lengths(mx, wrap):
                for form in ("x", "x ", "'", "x\n"):
                    v = (form * (n // len(form) + 1))[:n]
                    for g in ("1.1", "2.0", "STAR2"):
                        for place in ("blocks", "frames", "nested"):
                            if place == "nested" and g == "2.0":
                                continue
                            for how in ("arg", "init") if form == "x" else ("arg",):
                                yield v, place, g, wrap, mx, how
    ctx.explore("places", g_place, f_place)

    # multi-line values: every combination of line lengths around the limit
    def g_lines():
        for wrap, mx in ((40, 60), (80, 80), (80, 100), (80, 2048)):
            ls = [0, 1, mx - 7, mx - 6, mx - 3, mx - 2, mx - 1, mx, mx + 1]
            for tail in ("", "\\", " ", ";"):
                for k in (1, 2, 3):
                    if k == 3 and ctx.quick and tail in (" ",):
                        continue
                    for comb in itertools.product(ls, repeat=k):
                        for head in ("", ";", "\\"):
                            v = "\n".join(head + "w" * max(0, l - len(head) - len(tail)) + tail for l in comb)
                            yield v, 2, ("1.1" if k == 3 else "2.0"), wrap, mx, "arg"
    ctx.explore("lines", g_lines, f_item)

    def f_row(case, st):
        ws, ch, g, wrap, mx = case
        cf, kw = setup(g, mx, "arg")
        kw["wraplength"] = wrap
        b = newblock(CifFile, g)
        for i, w in enumerate(ws):
            b["_c%d" % i] = [ch * w, "r", ch * ws[-1 - i]]
        b.CreateLoop(["_c%d" % i for i in range(len(ws))])
        cf["t"] = b
        measure(cf, g, wrap, mx, True, kw)

    def g_row():
        for wrap, mx in ((40, 40), (40, 80), (80, 80), (80, 100), (80, 2048)):
            base = [1, 9, 10, 11, 19, 29, wrap - 11, wrap - 10, wrap - 9, wrap - 2, wrap - 1, wrap, wrap + 1, mx - 3, mx - 2, mx - 1, mx]
            base = sorted(set(x for x in base if 0 < x <= mx))
            for ch in ("x", "'", "["):
                for k in (1, 2, 3):
                    for ws in itertools.product(base if k < 3 else base[::2], repeat=k):
                        yield ws, ch, "2.0" if ch == "[" else "1.1", wrap, mx
                for k in (5, 10, 20, 60, 300):
                    for w in base:
                        if w * k < 60000:
                            yield (w,) * k, ch, "1.1", wrap, mx
    ctx.explore("rows", g_row, f_row)

    def f_cont(case, st):
        kind, n, w, ch, g, wrap, mx = case
        cf, kw = setup(g, mx, "arg")
        kw["wraplength"] = wrap
        b = newblock(CifFile, g)
        el = ch * w
        v = {"L": lambda: SL([el] * n), "T": lambda: SD([("k%d" % i, el) for i in range(n)]),
             "LL": lambda: SL([SL([el, el])] * n), "LT": lambda: SL([SD([("k", el), ("l", SL([el]))])] * n),
             "TL": lambda: SD([("k%d" % i, SL([el] * 3)) for i in range(n)]),
             "LLL": lambda: SL([SL([SL([el] * n)])])}[kind]()
        b["_v"] = v
        b["_p"] = [v, "x"]
        b["_q"] = [el, v]
        b["_r"] = [v, el]
        b.CreateLoop(["_p", "_q", "_r"])
        cf["t"] = b
        measure(cf, g, wrap, mx, False, kw)

    def g_cont():
        for g in ("2.0", "STAR2"):
            for wrap, mx in ((40, 40), (40, 80), (80, 80), (80, 2048)):
                for kind in ("L", "T", "LL", "LT", "TL", "LLL"):
                    for n in (1, 2, 3, 8, 30):
                        ws = set([0, 1, 2, 7, wrap // 2 - 2, wrap // 2 - 1, wrap // 2])
                        for c in (wrap, mx):
                            ws.update(range(c - 9, c + 4))
                        for w in sorted(ws):
                            if n * w > 8000 or w > 100 and n > 3:
                                continue
                            for ch in ("x", "[", "\n;") if w < 300 else ("x",):
                                yield kind, n, w, ch, g, wrap, mx
    ctx.explore("containers", g_cont, f_cont)

    # the line settings never change what is read back
    def f_same(case, st):
        vals, g = case
        ref = None
        for wrap, mx in LIMS:
            cf, kw = setup(g, mx, "arg")
            b = newblock(CifFile, g)
            for i, v in enumerate(vals):
                b["_i%d" % i] = v
            cf["t"] = b
            s = cf.WriteOut(wraplength=wrap, **kw)
            got = file_view(CifFile.ReadCif(io.StringIO(s), grammar=g))["blocks"]
            if ref is None:
                ref = got
            check(got == ref, "layout-changes-data", lambda: "wrap %d max %d: %s instead of %s" % (wrap, mx, short(got), short(ref)))

    def g_same():
        frs = ["a" * 30, " ", "\n", "\\", "\\\n", ";", "\n;", "'", "CIF:> ", "b" * 70]
        for k in (1, 2, 3, 4) if not ctx.quick else (1, 2, 3):
            for f in itertools.product(frs, repeat=k):
                for g in ("1.1", "2.0"):
                    yield ("".join(f), "z"), g
    ctx.explore("settings", g_same, f_same)
