"""C01: text values round-trip through WriteOut/ReadCif."""
import io, itertools
from mc.core import check, Skip, short

GRAMMARS = ("1.1", "2.0", "1.0", "STAR2")


def write_read(CifFile, values, g, readg, containers):
    """One file holding every value of `values` as plain item, in both columns of a
    loop next to harmless and to identical neighbours, and (2.0/STAR2) in a list and a table."""
    from CifFile.StarFile import StarList, StarDict
    cf = CifFile.CifFile()
    cf.set_grammar(g)
    b = CifFile.CifBlock()
    if g in ("2.0", "STAR2"):
        b.set_characterset("unicode")
    exp = {}
    def put(n, v):
        b[n] = v
        exp[n] = v
    for i, v in enumerate(values):
        put("_i%d" % i, v)
        put("_p%d" % i, [v, "x", v])
        put("_q%d" % i, ["y", v, v])
        b.CreateLoop(["_p%d" % i, "_q%d" % i])
        if containers:
            put("_l%d" % i, StarList([v, "z", v]))
            put("_t%d" % i, StarDict({"k": v, "m": "n"}))
            put("_n%d" % i, StarList([StarDict({"k": StarList([v])}), v]))
    cf["t"] = b
    s = cf.WriteOut()
    r = CifFile.ReadCif(io.StringIO(s), grammar=readg)
    check(list(r.keys()) == ["t"], "blocks", lambda: "blocks %r in %s" % (r.keys(), short(s)))
    rb = r["t"]
    got = dict((k.lower(), rb[k]) for k in rb.keys())
    for n in exp:
        gv = got.get(n, "<missing>")
        gv = tuple(gv) if isinstance(exp[n], tuple) else gv
        e = exp[n]
        if e != gv:
            check(False, "value", lambda: "grammar %s read %s item %s: wrote %r, read %r; text %s" % (g, readg, n, e, gv, short(s[s.find("data_t"):])))
    check(set(got) == set(exp), "names", lambda: "names %r, expected %r: %s" % (sorted(got), sorted(exp), short(s)))
    for i in range(len(values)):
        check([a.lower() for a in rb.GetLoop("_p%d" % i).keys()] == ["_p%d" % i, "_q%d" % i], "loop", lambda: "loop changed: %s" % short(s))


def run(ctx):
    import CifFile
    from CifFile import StarError
    ctx.level = "exploration"
    ctx.rule = ("a case is (text, output grammar, read grammar); all texts over the alphabet up to the bound plus all "
                "sequences of up to 3 fragments; non-trivial = the block accepted the text and the file was written and "
                "re-read; each file holds the text as item, in loop columns and, for 2.0/STAR2, in lists and tables")
    ctx.assumptions = ["texts contain no carriage return", "alphabet and length bounds as listed in DESIGN.md"]

    def fn(case, st):
        v, g, rg = case
        b = CifFile.CifBlock()
        if g in ("2.0", "STAR2"):
            b.set_characterset("unicode")
        try:
            b["_x"] = v
        except StarError:
            raise Skip()
        write_read(CifFile, [v], g, rg, g in ("2.0", "STAR2"))

    alpha = "a '\";\n\\_#[]{}:$?\t,"
    def strings(n):
        for l in range(n + 1):
            for t in itertools.product(alpha, repeat=l):
                yield "".join(t)

    nn = 3 if ctx.quick else 4
    def g1():
        for t in strings(nn):
            for g in GRAMMARS:
                yield t, g, g
    ctx.explore("chars", g1, fn)

    small = "a'\" \n;\\#"
    def g2():
        for l in range(4, 6 if ctx.quick else 7):
            for t in itertools.product(small.replace('"', "") if ctx.quick and l == 5 else small, repeat=l):
                for g in ("1.1", "2.0") if l > 4 else GRAMMARS:
                    yield "".join(t), g, g
    ctx.explore("quotes", g2, fn)

    longw = "w" * 90
    frags = ["", "a", " ", "\n", "'", '"', "'''", '"""', ";", "\n;", "\\", "\\\n", "CIF:> \\\n", "CIF:", "> ", "#x", "_x", "$f",
             "[", "]", "{", "}", ":", ",", "?", ".", "\n#x\n", "data_", "data_x", "DATA_y", "loop_", "Loop_", "save_", "save_x", "stop_",
             "Stop_z", "global_", "GLOBAL_1", "-1.5(3)", "\t", "   ", longw, "x" * 2040, "x" * 2050]
    big = set([frags[-1], frags[-2]])
    core = set(["a", " ", "\n", "'", '"', "\n;", "\\\n", "CIF:> \\\n", "> ", "#x", "_x", "loop_", longw])

    def g3():
        for k in (1, 2, 3):
            for f in itertools.product(frags, repeat=k):
                if k > 1 and "" in f:
                    continue
                if k == 3:
                    if ctx.quick and len(core.intersection(f)) < 2:
                        continue
                    if len(big.intersection(f)) > 0 and (f[0] not in big or f[2] in big):
                        continue
                for g in (("1.1", "2.0") if k == 3 else GRAMMARS):
                    yield f, g, g
                if k <= 2:
                    for g in ("1.1", "2.0", "1.0"):
                        yield f, g, "auto"

    def fn3(case, st):
        f, g, rg = case
        return fn(("".join(f), g, rg), st)
    ctx.explore("fragments", g3, fn3)

    def g4():
        chars = [c for c in range(1, 0x250) if c != 13] + [0x2028, 0x2029, 0x200b, 0x3000, 0xfeff, 0xfffd, 0x4e2d, 0xe000, 0x1d4b3, 0xfdd0, 0xffff]
        for c in chars:
            for f in ("%s", "a%s", "%sb", "a%sb", "a %s", "a\n%s", "'%s\"", "%s%s"):
                t = f.replace("%s", chr(c))
                for g in GRAMMARS:
                    yield t, g, g
                    if f == "a%sb" and g != "STAR2":
                        yield t, g, "auto"
    ctx.explore("codepoints", g4, fn)

    # reserved words in every mixture of upper and lower case
    def g6():
        for w in ("data", "save", "loop", "stop", "global"):
            for bits in itertools.product((0, 1), repeat=len(w)):
                for suf in ("", "_", "_x", "_1.", "x_"):
                    t = "".join(c.upper() if k else c for c, k in zip(w, bits)) + suf
                    for g in GRAMMARS:
                        yield t, g, g
    ctx.explore("reserved", g6, fn)

    # neighbours: two different adversarial values adjacent in one file
    nb = ["a", "", " ", "'", '"', "'\"", "\n", "a\n;b", ";", "_x", "#", "\\\n", "a'b", "loop_", "data_x", "x" * 75, "x" * 79, "x" * 80, "x" * 85, "[", "{", "]", ":", "a\nb", "?"]
    def fnb(case, st):
        vs, g = case
        from CifFile.StarFile import StarList, StarDict
        cf = CifFile.CifFile()
        cf.set_grammar(g)
        b = CifFile.CifBlock()
        exp = {}
        def put(n, v):
            b[n] = v
            exp[n] = v
        for i, v in enumerate(vs):
            put("_a%d" % i, v)
        for i, v in enumerate(vs):
            put("_c%d" % i, [v, vs[(i + 1) % len(vs)]])
        b.CreateLoop(["_c%d" % i for i in range(len(vs))])
        if g in ("2.0", "STAR2"):
            put("_l", StarList(vs))
            put("_m", [StarList(vs), vs[0]])
            put("_n", [vs[1], StarList(vs)])
            b.CreateLoop(["_m", "_n"])
        cf["t"] = b
        s = cf.WriteOut()
        rb = CifFile.ReadCif(io.StringIO(s), grammar=g)["t"]
        for n, e in exp.items():
            gv = rb.get(n, "<missing>")
            check(gv == e, "neighbour", lambda: "grammar %s item %s: wrote %r read %r: %s" % (g, n, e, gv, short(s[s.find("data_t"):])))
    def g5():
        for k in (2, 3):
            for vs in itertools.product(nb, repeat=k):
                for g in GRAMMARS if k == 2 else ("1.1", "2.0"):
                    yield list(vs), g
    ctx.explore("neighbours", g5, fnb)
