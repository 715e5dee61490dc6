"""C15: templates change layout only, never content."""
import io, itertools, os, re
from mc.core import check, Skip, short
from checks.c02 import file_view, newfile, newblock

DELIMS = [None, "'", '"', "'''", '"""', "\n;"]
GRAMMARS = ("2.0", "1.1", "STAR2", "1.0")


def dummy(d, text="dummy"):
    if d is None:
        return text
    if d == "\n;":
        return "\n;" + text + "\n;"
    return d + text + d


def template(layout, indent=0, gap=1, head="#\\#CIF_2.0\n"):
    """layout: list of (name, delimiter) or [list of (name, delimiter)] for a loop."""
    out = [head, "data_t\n"]
    for i, it in enumerate(layout):
        if isinstance(it, tuple):
            v = dummy(it[1])
            out.append(" " * indent + it[0] + ("" if v[0] == "\n" else " " * gap) + v + "\n")
        else:
            out.append(" " * indent + "loop_\n")
            for n, d in it:
                out.append(" " * (indent + 2) + n + "\n")
            out.append(" " * gap + (" " * gap).join(dummy(d) for n, d in it) + "\n")
    return "".join(out)


def content(view):
    """Everything but the order of items and of loop columns."""
    blocks = {}
    for k, b in view["blocks"].items():
        b = dict(b)
        b.pop("order")
        b["loops"] = sorted(tuple(sorted(l)) for l in b["loops"])
        blocks[k] = b
    return dict(tree=view["tree"], order=[k for k in view["order"] if view["tree"][k][1] is None], blocks=blocks)


VALTOK = re.compile(r"""\n;(?:[^\n]|\n(?!;))*\n;|'''.*?'''(?=\s|$)|\"\"\".*?\"\"\"(?=\s|$)|'[^\n]*?'(?=\s|$)|"[^\n]*?"(?=\s|$)|\S+""", re.S)


def values_after(text, names):
    """The values, as written, that follow the names of a loop or item in `text`."""
    pos = 0
    for n in names:
        m = re.compile(r"^[ \t]*" + re.escape(n) + r"(?=\s)", re.M).search(text, pos)
        if m is None:
            return None
        pos = m.end()
    return [m.group(0) for m in VALTOK.finditer(text, pos)]


def delim_of(tok):
    for d in ("\n;", "'''", '"""', "'", '"'):
        if tok.startswith(d):
            return d
    return None


def expressible(v, d, g):
    """A conservative rule: v can certainly be written with delimiter d in grammar g."""
    if d == "\n;":
        return True
    if d in ("'", '"'):
        return d not in v and "\n" not in v and "\\" not in v
    if d in ("'''", '"""'):
        return g in ("2.0", "STAR2") and d[0] not in v and "\\" not in v
    return re.match(r"[A-Za-z0-9]+$", v) is not None and not re.match("data|save|loop|stop|global", v, re.I)


def run(ctx):
    import CifFile
    from CifFile import StarError
    ctx.level = "exploration"
    ctx.rule = ("a case is (template layout, block content, output grammar, way of giving the template); non-trivial = written with the "
                "template, read back, and compared with the data before writing; for plain items and loop columns the order and the "
                "delimiter found in the text are compared with the template")
    ctx.assumptions = ["templates obey the constraints in docs/overview.txt", "templates that ask for re-wrapping of text are only compared up to white space"]

    def write(cf, tmpl, how="stream"):
        if how == "file":
            p = os.path.join(ctx.scratch, "tmpl%d.cif" % os.getpid())
            with open(p, "w") as f:
                f.write(tmpl)
            cf.SetTemplate(p)
        else:
            cf.SetTemplate(io.StringIO(tmpl))

    def same(cf, exp, g, what):
        s = cf.WriteOut()
        check(content(file_view(cf)) == exp, "writing-changes-data", lambda: "content of the file changed by writing: %r" % what)
        r = CifFile.ReadCif(io.StringIO(s), grammar=g)
        r.set_grammar(g)
        got = content(file_view(r))
        check(got == exp, "content", lambda: "template %s\nwrote %s\nread  %s\ntext %s" % (short(what), short(exp["blocks"]), short(got["blocks"]), short(s[s.find("data_"):])))
        check(cf.WriteOut()[s.find("data_"):] == s[s.find("data_"):], "second-writing", lambda: "second writing differs: %s" % short(what))
        return s[s.find("data_"):]

    def put(b, layout, vals):
        """layout as in template() with names only; vals: iterator of values, two rows per loop"""
        for it in layout:
            if isinstance(it, str):
                b[it] = next(vals)
            else:
                for n in it:
                    b[n] = [next(vals), next(vals)]
                b.CreateLoop(list(it))

    # ---- values x delimiters
    def texts(n):
        for l in range(n + 1):
            for t in itertools.product("a '\";\n\\#_", repeat=l):
                yield "".join(t)
    extra = ["w" * 60, "w " * 60, "w" * 140, ("long line " * 9 + "\n") * 2, "a\n;b", "a''b", "x\\\ny", "loop_", "data_x", "12.3(4)", "'''", '"""', "a'''b\"\"\"c",
             u"\u00e9", "?", ".", "[a]", "{'a':b}", "a:b", "a\tb", ";a", "a'", '"', "end\n", "\nstart", "two\n\nlines", "CIF:> \\\nCIF:> a"]

    def f_val(case, st):
        v, d, g, where = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        try:
            if where == "plain":
                b["_a"] = v
                names = ["_a"]
                lay = [("_a", d)]
            else:
                b["_b"] = ["x", v]
                b["_a"] = [v, "y z"]
                b.CreateLoop(["_b", "_a"])
                names = ["_b", "_a"]
                if where == "second":
                    lay = [[("_b", None), ("_a", d)]]
                else:
                    names.reverse()
                    lay = [[("_a", d), ("_b", None)]]
        except StarError:
            raise Skip()
        b["_z"] = "after"
        cf["t"] = b
        exp = content(file_view(cf))
        t = template(lay, gap=5)
        write(cf, t)
        text = same(cf, exp, g, t)
        if d is not None and "\n" not in v and expressible(v, d, g):
            toks = values_after(text, names)
            check(toks, "name-lost", lambda: "names %s not found in order in %s" % (names, short(text)))
            tok = toks[1 if where == "second" else 0]
            if d == "\n;":      # the search starts after white space
                ok = "\n;" in text
                check(ok, "delimiter", lambda: "no text field in %s" % short(text))
            else:
                check(delim_of(tok) == d and tok == d + v + d, "delimiter", lambda: "value %r: template delimiter %r, written %r in %s" % (v, d, tok, short(text)))

    def g_val():
        for where in ("plain", "first", "second"):
            for d in DELIMS:
                if where != "plain" and d == "\n;":
                    continue
                for g in GRAMMARS:
                    for v in extra:
                        yield v, d, g, where
                    if ctx.quick and g in ("STAR2", "1.0"):
                        continue
                    for v in texts((3 if where == "plain" else 2) if ctx.quick else 3):
                        yield v, d, g, where
    ctx.explore("values", g_val, f_val)

    # ---- names
    NAMES = ["_a", "_ab", "_a.b", "_a(b)", "_a[1]", "_a+b", "_a*", "_a^b", "_a$b", "_a|b", "_a-b/c", "_A_Upper", "_a?b", "_a.", "_a\\b", "_dict.data_x", "_save_x", "_loop_x"]

    def f_name(case, st):
        n1, n2, looped, g, order = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        lay = [(n1, "'"), (n2, '"')]
        if looped:
            b[n2] = ["p", "q"]
            b[n1] = ["1", "2 3"]
            b.CreateLoop([n2, n1])
            lay = [lay]
        else:
            b[n2] = "v"
            b[n1] = "1 2"
        cf["t"] = b
        exp = content(file_view(cf))
        tl = lay if order == 0 else [lay[0][::-1]] if looped else lay[::-1]
        if order == 2:      # one of the names only
            tl = [[lay[0][0]]] if looped else [lay[0]]
        if order == 3:      # letter case differs
            sw = lambda nd: (nd[0].upper(), nd[1])
            tl = [[sw(x) for x in lay[0]]] if looped else [sw(x) for x in lay]
        t = template(tl, gap=3)
        write(cf, t)
        text = same(cf, exp, g, t)
        want = [n1, n2] if order in (0, 3) else [n2, n1] if order == 1 else [n1]
        toks = values_after(text, want)
        check(toks is not None, "order", lambda: "names not in template order %s in %s" % (want, short(text)))
        if looped:
            toks = values_after(text, want + [n2] if order == 2 else want)
            check(delim_of(toks[0]) == ('"' if order == 1 else "'"), "delimiter", lambda: "delimiter of %s not as in template: %s" % (want, short(text)))
        else:
            for n, d in ((n1, "'"), (n2, '"')):
                if n in want:
                    tk = values_after(text, [n])
                    check(delim_of(tk[0]) == d, "delimiter", lambda: "delimiter of %s not as in template: %s" % (n, short(text)))

    def g_name():
        for n1, n2 in itertools.permutations(NAMES, 2):
            for looped in (0, 1):
                for order in (0, 1, 2, 3):
                    for g in ("2.0",) if ctx.quick else ("2.0", "1.1"):
                        yield n1, n2, looped, g, order
    ctx.explore("names", g_name, f_name)

    # ---- layouts: every arrangement of names in the block x every arrangement in the template
    def arrangements(names):
        """All sequences of plain names and loops over subsets of `names` (loops have ordered columns)."""
        def rec(left):
            yield ()
            for i, n in enumerate(left):
                rest = left[:i] + left[i + 1:]
                for tail in rec(rest):
                    yield (n,) + tail
            for k in range(1, len(left) + 1):
                for cols in itertools.permutations(left, k):
                    rest = tuple(x for x in left if x not in cols)
                    for tail in rec(rest):
                        yield (list(cols),) + tail
        return list(rec(tuple(names)))
    arr = arrangements(("_a", "_B", "_c"))
    arr2 = [a for a in arr if a]

    def f_lay(case, st):
        i, j, g, how, indent = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        put(b, arr2[i], iter(["1", "2 x", "3'", "4\n5", "6", "7"]))
        b["_extra"] = "e"
        if how != "before":
            cf["t"] = b
            exp = content(file_view(cf))
        ds = itertools.cycle(["'", None, '"'])
        lay = [(x, next(ds)) if isinstance(x, str) else [(n, next(ds)) for n in x] for x in arr[j]]
        t = template(lay, indent=indent, gap=2)
        write(cf, t, how)
        if how == "before":
            cf.NewBlock("t", b)
            exp = content(file_view(cf))
        text = same(cf, exp, g, t)
        # order: items and loops named in the template come first, in template order
        want = []
        for x in arr[j]:
            for n in ([x] if isinstance(x, str) else x):
                for k, y in enumerate(arr2[i]):
                    if (y == n if isinstance(y, str) else n in y) and k not in want:
                        want.append(k)
        tnames = [n for x in arr[j] for n in ([x] if isinstance(x, str) else x)]
        flat = []
        for k in want:
            y = arr2[i][k]
            flat += [y] if isinstance(y, str) else [n for n in tnames if n in y]
        pos = [re.search(r"^\s*" + n + r"\s", text, re.M).start() for n in flat]
        check(pos == sorted(pos), "order", lambda: "template order %s, written %s" % (flat, short(text)))
        rest = [n for k, y in enumerate(arr2[i]) if k not in want for n in ([y] if isinstance(y, str) else y)] + ["_extra"]
        p2 = [re.search(r"^\s*" + n + r"\s", text, re.M).start() for n in rest]
        check(not pos or min(p2) > max(pos), "order", lambda: "items outside the template come first: %s" % short(text))

    def g_lay():
        for i in range(len(arr2)):
            for j in range(len(arr)):
                for g, how, ind in ((("2.0", "stream", 0),) if ctx.quick else (("2.0", "stream", 0), ("1.1", "file", 4), ("2.0", "before", 2))):
                    yield i, j, g, how, ind
    ctx.explore("layouts", g_lay, f_lay)

    # ---- compound values, several blocks and frames, ways of giving the template, layout variations of the template itself
    from CifFile.StarFile import StarList as SL, StarDict as SD
    COMP = [("list", lambda: SL(["a b", "c", SL(["d'"])])), ("table", lambda: SD({"k": "v w", "l": SL(["x"])})), ("empty", lambda: SL([])), ("none", lambda: "?")]
    VARI = ["#\\#CIF_2.0\n#comment\n", "#\\#CIF_2.0\n\n\n# _a 'in comment'\n"]
    FORMS = ["item", "loop", "loopblank", "comment", "multi-row", "upper", "tabs"]

    def form(kind, d, gap):
        h = "#\\#CIF_2.0\n"
        v = dummy(d)
        if kind == "item":
            return h + "data_t\n_a" + " " * gap + v + "\n"
        if kind == "loop":
            return h + "data_t\nloop_\n  _a\n  _b\n" + " " * gap + v + " " * gap + "other\n"
        if kind == "loopblank":
            return h + "data_t\n\n\nloop_\n  _a\n  _b\n\n" + " " * gap + v + "\n" + " " * gap + "other\n"
        if kind == "comment":
            return h + "# before\ndata_t\n# _a comment\n_a" + " " * gap + v + "\n#after\n_b 1\n"
        if kind == "multi-row":
            return h + "data_t\nloop_\n_a\n_b\n" + v + " one\nmore 'two'\n_c 3\n"
        if kind == "upper":
            return h + "DATA_T\nLOOP_\n_A\n_B\n" + v + " 1\n"
        return h + "data_t\nloop_\n\t_a\n\t_b\n\t" + v + "\t1\n"

    def f_form(case, st):
        kind, d, gap, comp, g, where, how = case
        cf = newfile(CifFile, g)
        val = dict(COMP)[comp] if comp else (lambda: "a b")
        def blk():
            b = newblock(CifFile, g)
            if where == "plain":
                b["_a"] = val()
                b["_b"] = "it is"
            else:
                b["_c"] = ["1", "2"]
                b["_a"] = [val(), val()]
                b["_b"] = ["x", val()]
                b.CreateLoop(["_c", "_a", "_b"])
            b["_d"] = val()
            return b
        t = form(kind, d, gap)
        if how == "before":
            write(cf, t)
        cf.NewBlock("one", blk())
        cf.NewBlock("two", blk())
        if g in ("STAR2", "2.0"):
            cf.NewBlock("fr", blk(), parent="one")
        if how != "before":
            write(cf, t, how)
        cf.NewBlock("three", blk())
        exp = content(file_view(cf))
        text = same(cf, exp, g, t)
        if where == "plain" and comp is None:
            bits = re.split(r"^(?:data|save)_(?:one|two|three|fr)\s", text, flags=re.M)[1:]
            for x in bits:
                tk = values_after(x, ["_a"])
                if tk is not None and d is not None and d != "\n;" and expressible("a b", d, g):
                    check(delim_of(tk[0]) == d, "delimiter", lambda: "template %s, written %s" % (short(t), short(x)))

    def g_form():
        for kind in FORMS:
            for d in DELIMS:
                if d == "\n;" and kind not in ("item", "comment"):
                    continue
                for gap in (1, 20) if ctx.quick else (1, 3, 20, 60):
                    for comp in [None] + [c[0] for c in COMP]:
                        for g in ("2.0", "1.1"):
                            if g == "1.1" and comp in ("list", "table", "empty"):
                                continue
                            for where in ("plain", "loop"):
                                for how in ("before", "stream", "file"):
                                    yield kind, d, gap, comp, g, where, how
    ctx.explore("forms", g_form, f_form)

    # ---- templates that ask for text to be re-wrapped: the words never change
    def f_wrap(case, st):
        v, g, ind = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        try:
            b["_a"] = v
        except StarError:
            raise Skip()
        b["_z"] = "after"
        cf["t"] = b
        t = "#\\#CIF_2.0\ndata_t\n_a\n;\n%stext\n%smore\n;\n" % (" " * ind, " " * ind)
        write(cf, t)
        s = cf.WriteOut()
        check(cf["t"]["_a"] == v, "writing-changes-data", "value changed by writing")
        r = CifFile.ReadCif(io.StringIO(s), grammar=g)
        check(sorted(r["t"].keys()) == ["_a", "_z"] and r["t"]["_z"] == "after", "content", lambda: "items changed: %s" % short(s[s.find("data_"):]))
        check(r["t"]["_a"].split() == v.split(), "wrap-words", lambda: "value %r read %r" % (short(v), short(r["t"]["_a"])))
        if "\n" not in v:
            check(r["t"]["_a"] == v, "wrap-single-line", lambda: "value %r read %r" % (short(v), short(r["t"]["_a"])))

    def g_wrap():
        words = ["a", "ab cd", "", "x" * 85, "word " * 30, ";b", "a-b " * 25, "\\", "   c", "1.", "'", "\\x", "_n", "e" * 30 + "-" + "f" * 60]
        for n in (1, 2, 3):
            for t in itertools.product(words, repeat=n):
                for sep in ("\n", "\n\n") if n > 1 else ("",):
                    for g in ("2.0", "1.1"):
                        for ind in (2, 5):
                            if ctx.quick and n == 3 and (ind, g, sep) != (5, "2.0", "\n"):
                                continue
                            yield sep.join(t), g, ind
    ctx.explore("rewrapping", g_wrap, f_wrap)
