"""C16: illegal names and values are refused, accepted ones are stored, refusals change nothing."""
import io, itertools
from mc.core import check, Skip, canon, short


def name_char_ok(c, cs):
    """After an underscore: CIF 1.1 / CIF 2.0 rules for data name characters."""
    if cs == "ascii":
        return 33 <= c <= 126
    return (33 <= c <= 126 or 0xA0 <= c <= 0xD7FF or 0xE000 <= c <= 0xFDCF or 0xFDF0 <= c <= 0xFFFD
            or (c >= 0x10000 and c & 0xFFFE != 0xFFFE))


def value_char_ok(c, cs):
    if c in (9, 10, 13, 32):
        return True
    if cs == "unicode" and c >= 0x10000 and c & 0xFFFE == 0xFFFE:
        return None         # the CIF2 grammar and the library differ here: not decided
    return name_char_ok(c, cs)


def run(ctx):
    import CifFile
    from CifFile import StarError, CifError
    from CifFile.StarFile import StarList as SL, StarDict as SD, StarLengthError, StarPacket
    LIB = (StarError, CifError, StarLengthError)
    ctx.level = "exploration"
    ctx.rule = ("a case is a range of code points in one position (names, values), a name or block name length around a limit, or a "
                "sequence of edits; non-trivial = acceptance was compared with the reference rule and the whole block compared after a refusal")
    ctx.assumptions = ["names and values are Python text", "the 32 noncharacters U+nFFFE/U+nFFFF (n>0) are not decided for values"]

    def newblock(cs, **kw):
        b = CifFile.CifBlock(**kw)
        b.set_characterset(cs)
        return b

    def attempt(b, op, legal, what, *args):
        """op() must succeed exactly when legal, and change nothing when refused."""
        before = canon(b) if not legal else None
        try:
            op()
            ok = True
        except LIB:
            ok = False
        except (ValueError, KeyError, TypeError, IndexError, AttributeError) as e:
            check(False, "%s:wrong-error" % what, "%s: %s for %s" % (what, repr(e)[:200], short(args)))
        if legal is None:
            return ok
        check(ok or not legal, "%s:refused" % what, lambda: "%s: legal %s refused" % (what, short(args)))
        check(legal or not ok, "%s:accepted" % what, lambda: "%s: illegal %s accepted" % (what, short(args)))
        if not ok:
            check(canon(b) == before, "%s:changed" % what, lambda: "%s: refused %s but the block changed" % (what, short(args)))
        return ok

    # ---- every code point in a data name
    def f_name(case, st):
        start, n, cs, pos = case
        b = newblock(cs)
        b["_keep"] = "1"
        for c in range(start, start + n):
            ch = chr(c)
            nm = {"first": ch + "ab", "second": "_" + ch + "b", "middle": "_a" + ch + "b", "last": "_ab" + ch}[pos]
            legal = c == 95 if pos == "first" else name_char_ok(c, cs)
            if attempt(b, lambda: b.AddItem(nm, "v"), legal, "name", nm):
                got = [k for k in b.keys() if k != "_keep"]
                check(got == [nm.lower()] and b[nm] == "v" and b.true_case[nm.lower()] == nm, "name:stored", lambda: "stored %s for %r" % (got, nm))
                del b[nm]
            check(list(b.keys()) == ["_keep"], "name:left", lambda: "after %r: %s" % (nm, b.keys()))

    def ranges(limit):
        step = 64
        for s in range(0, limit, step):
            yield s, step

    def g_name():
        for cs in ("ascii", "unicode"):
            for pos in ("first", "second", "middle", "last"):
                lim = 0x110000 if pos == "middle" or not ctx.quick else 0x3000
                if cs == "ascii" and ctx.quick:
                    lim = 0x3000
                for s, n in ranges(lim):
                    yield s, n, cs, pos
    ctx.explore("names", g_name, f_name)

    # ---- every code point in a value, at every level of nesting
    def wraps(v):
        return [("text", v), ("column", ["x", v]), ("first", [v, "x"]), ("tuple", ("x", v)), ("list", SL(["x", v])), ("list2", SL([SL(["x"]), SL([SL([v])])])),
                ("table", SD({"k": v})), ("key", SD({"k" + v: "x"})), ("tablelist", SD({"k": SL(["x", SD({"m": v})])})), ("columnlist", [SL(["x"]), SL([v])]),
                ("columntable", [SD({"k": "x"}), SD({"k": v, "z": "y"})])]
    KINDS = [w[0] for w in wraps("")]

    def f_val(case, st):
        start, n, cs, kind = case
        b = newblock(cs)
        b["_keep"] = "1"
        b["_old"] = "before"
        for c in range(start, start + n):
            for text in (chr(c), "a" + chr(c), chr(c) + "a") if kind == "text" else ("a" + chr(c) + "b",):
                v = dict(wraps(text))[kind]
                legal = value_char_ok(c, cs)
                for nm in ("_old", "_new"):
                    if attempt(b, lambda: b.AddItem(nm, v), legal, "value-" + kind, nm, v):
                        got = b[nm]
                        check(list(got) == list(v) if isinstance(v, tuple) else got == v, "value:stored", lambda: "stored %r for %r" % (got, v))
            if c % 16 == 0:
                b = newblock(cs)
                b["_keep"] = "1"
                b["_old"] = "before"

    def g_val():
        for cs in ("ascii", "unicode"):
            for kind in KINDS:
                lim = 0x110000 if cs == "unicode" and (kind == "text" or not ctx.quick) else 0x3000 if kind == "text" else 0x400
                for s, n in ranges(lim):
                    yield s, n, cs, kind
                if lim < 0x110000 and cs == "unicode":
                    for s in (0xD7C0, 0xE000, 0xFDC0, 0xFDF0, 0xFFC0, 0x10000, 0x1FFC0, 0x10FFC0):
                        yield s, 64, cs, kind
    ctx.explore("values", g_val, f_val)

    # ---- lengths of names and block names
    def f_len(case, st):
        what, limit, l, how = case
        nm = "_" + "n" * (l - 1) if l else ""
        if what == "item":
            b = CifFile.CifBlock(strict=0) if how != "strict" else CifFile.CifBlock()
            if how == "set":
                b.setmaxnamelength(limit)
            if limit < 2 or l == 1:
                raise Skip()
            b["_k"] = "1"
            attempt(b, lambda: b.AddItem(nm, "v"), 1 <= l <= limit, "name-length", limit, l)
            attempt(b, lambda: b.__setitem__(nm, "w"), 1 <= l <= limit, "name-length", limit, l)
        elif what == "setlimit":
            b = CifFile.CifBlock(strict=0)
            if l < 2:
                raise Skip()
            b[nm] = "v"
            attempt(b, lambda: b.setmaxnamelength(limit), l <= limit, "set-limit", limit, l) if l <= limit else None
            if l > limit:
                try:
                    b.setmaxnamelength(limit)
                    check(False, "set-limit:accepted", "limit %d accepted with a name of %d" % (limit, l))
                except LIB:
                    check(sorted(b.keys()) == [nm] and b[nm] == "v", "set-limit:changed", "items changed")
        elif what == "newblock":
            cf = CifFile.CifFile()
            cf.NewBlock("other")
            b = CifFile.CifBlock(strict=0)
            b[nm] = "v"
            before = (sorted(cf.keys()), dict(cf.child_table))
            try:
                cf.NewBlock("fresh", b)
                ok = True
            except LIB:
                ok = False
            check(ok == (l <= 75), "block-item-length", "block with a name of %d characters: accepted %s" % (l, ok))
            if not ok:
                check((sorted(cf.keys()), dict(cf.child_table)) == before, "block-item-length:changed", "refused block changed the file")
        else:
            cf = CifFile.CifFile(standard=None) if how == "star" else CifFile.CifFile()
            cf.NewBlock("other")
            before = canon(cf)
            name = "b" * l
            try:
                if how == "setitem":
                    cf[name] = CifFile.CifBlock()
                elif how == "frame":
                    cf.NewBlock(name, parent="other")
                else:
                    cf.NewBlock(name, CifFile.CifBlock())
                ok = True
            except LIB:
                ok = False
            check(ok == (l <= 75), "block-name-length", "block name of %d characters: accepted %s (%s)" % (l, ok, how))
            if not ok:
                check(canon(cf) == before, "block-name-length:changed", "refused block changed the file")
            else:
                check(cf.child_table[name].block_id == name, "block-name:stored", "stored %r" % (cf.child_table[name],))

    def g_len():
        for limit in (1, 2, 3, 10, 74, 75, 76, 100):
            for l in (0, 1, 2, 3, 4, 9, 10, 11, 73, 74, 75, 76, 77, 99, 100, 101, 200):
                yield "item", limit, l, "set"
                if l:
                    yield "setlimit", limit, l, ""
        for l in range(0, 160):
            yield "item", 75, l, "strict"
            if l:
                yield "newblock", 75, l, ""
                for how in ("new", "setitem", "frame", "star"):
                    yield "block", 75, l, how
    ctx.explore("lengths", g_len, f_len)

    # ---- every way of adding x every kind of bad (or good) part x overwriting on/off
    NAMES = {"new": "_new", "New2": "_New2", "old": "_old", "OLD": "_OLD", "col": "_c1", "COL": "_C2", "bad": "new", "badch": "_n w", "nonascii": u"_\u00e9", "long": "_" + "x" * 75, "empty": ""}
    VALS = {"good": "v", "bad": "a\x07b", "nonascii": u"a\u00e9"}

    def f_way(case, st):
        way, nk, vk, lock, cs = case
        b = newblock(cs)
        b["_keep"] = "1"
        b["_Old"] = "before"
        b["_c1"] = ["1", "2"]
        b["_c2"] = ["x", "y"]
        b.CreateLoop(["_c1", "_c2"])
        b.overwrite = not lock
        nm, v = NAMES[nk], VALS[vk]
        legal = nk in ("new", "New2", "old", "OLD", "col", "COL") or (nk == "nonascii" and cs == "unicode")
        legal = legal and (vk == "good" or (vk == "nonascii" and cs == "unicode"))
        exists = nk in ("old", "OLD", "col", "COL")
        col = nk in ("col", "COL")
        if lock and exists:
            legal = False
        if way == "setitem":
            op, w = (lambda: b.__setitem__(nm, ["p", v] if col else v)), (["p", v] if col else v)
        elif way == "AddItem":
            op, w = (lambda: b.AddItem(nm, ["p", v] if col else v)), (["p", v] if col else v)
        elif way == "AddLoopItem-single":
            w = ["p", v] if col else v
            op = lambda: b.AddLoopItem((nm, w))
        elif way == "AddLoopItem-loop":
            w = ["p", v]
            op = lambda: b.AddLoopItem((["_first", nm], [["q", "r"], w]))
        elif way == "update":
            w = ["p", v] if col else v
            op = lambda: b.update({"_first": "f", nm: w, "_last": "l"})
        elif way == "AddToLoop":
            w = ["p", v]
            op = lambda: b.AddToLoop("_c1", {"_first": ["q", "r"], nm: w})
        elif way == "loopblock":
            w = ["p", v]
            lb = b.GetLoop("_c1")
            op = lambda: lb.__setitem__(nm, w)
        elif way == "compat":
            b.compat_mode = True
            w = ["p", v]
            op = lambda: b.__setitem__(nm, w)
        elif way == "AddPacket":
            if not col:
                raise Skip()
            pk = b.GetLoop("_c1").GetPacket(0)
            setattr(pk, nm, v)
            legal = not lock and (vk == "good" or (vk == "nonascii" and cs == "unicode"))
            op = lambda: b.GetLoop("_c1").AddPacket(pk)
            w = None
        elif way in ("merge-strict", "merge-replace"):
            o = CifFile.CifBlock(strict=0)
            o.set_characterset("unicode")
            try:
                o["_first"] = "f"
                o.AddItem(nm, v, precheck=True)
                o.AddItem("_last", "l")
            except Exception:
                raise Skip()
            if col:
                legal = legal and False if way == "merge-strict" else legal
            if way == "merge-strict" and exists:
                legal = False
            w = v
            op = lambda: b.merge(o, way.split("-")[1])
        elif way == "constructor":
            if exists or lock:
                raise Skip()
            w = ["p", v]
            def op():
                n = CifFile.CifBlock(data=((["_first", nm], [["q", "r"], w]),), characterset=cs)
                b.clear()
                b.block, b.loops, b.item_order, b.true_case = n.block, n.loops, n.item_order, n.true_case
        else:
            raise AssertionError(way)
        if attempt(b, op, legal, way, nk, vk, lock, cs) and w is not None:
            check(b[nm] == w, way + ":stored", lambda: "stored %r for %r" % (b[nm], w))
            check(b.true_case[nm.lower()] == nm or way.startswith("merge") or exists, way + ":spelling", lambda: "spelled %r for %r" % (b.true_case[nm.lower()], nm))

    def g_way():
        for way in ("setitem", "AddItem", "AddLoopItem-single", "AddLoopItem-loop", "update", "AddToLoop", "loopblock", "compat", "AddPacket", "merge-strict", "merge-replace", "constructor"):
            for nk in NAMES:
                for vk in VALS:
                    for lock in (False, True):
                        for cs in ("ascii", "unicode"):
                            yield way, nk, vk, lock, cs
    ctx.explore("ways", g_way, f_way)

    # ---- histories of locking, adding, replacing and deleting against a small model
    OPS = ([("set", n, v) for n in ("_a", "_A", "_b") for v in ("1", "2")] + [("del", "_A")] + [("lock",), ("unlock",), ("blk", "x"), ("blk", "X"), ("blk", "y"), ("frame", "x"), ("reread",), ("merge",), ("block-overwrite",)])

    def run_hist(hist, st):
        cf = CifFile.ReadCif(io.StringIO("#\\#CIF_2.0\ndata_x\n_a 0\n"), grammar="2.0")
        model, locked, blocks = {"_a": ("_a", "0")}, not cf["x"].overwrite, {"x"}
        for op in hist:
            x = cf["x"]
            if op[0] == "set":
                legal = not (locked and op[1].lower() in model)
                try:
                    x[op[1]] = op[2]
                    ok = True
                except LIB:
                    ok = False
                check(ok == legal, "overwrite", lambda: "%s: accepted %s, locked %s (history %s)" % (op, ok, locked, hist))
                if ok:
                    model[op[1].lower()] = (op[1], op[2])
            elif op[0] == "del":
                del x[op[1]]
                model.pop(op[1].lower(), None)
            elif op[0] == "lock":
                cf.lock()
                locked = True
            elif op[0] == "unlock":
                cf.unlock()
                locked = False
            elif op[0] == "block-overwrite":
                x.overwrite = True
                locked = False
            elif op[0] == "merge":
                o = CifFile.CifBlock()
                o["_a"] = "9"
                legal = not (locked and "_a" in model)
                try:
                    x.merge(o, "replace")
                    ok = True
                except LIB:
                    ok = False
                check(ok == legal, "overwrite:merge", lambda: "accepted %s, locked %s (history %s)" % (ok, locked, hist))
                if ok:
                    model["_a"] = ("_a", "9")
            elif op[0] == "blk":
                legal = op[1].lower() not in blocks
                try:
                    n = CifFile.CifBlock()
                    n["_z"] = "z"
                    cf[op[1]] = n
                    ok = True
                except LIB:
                    ok = False
                check(ok == legal, "block-overwrite", lambda: "%s accepted %s (history %s)" % (op, ok, hist))
                if ok:
                    blocks.add(op[1].lower())
            elif op[0] == "frame":
                if "fr" in blocks:
                    try:
                        cf.NewBlock("FR", parent="x")
                        check(False, "block-overwrite", "second frame FR accepted")
                    except LIB:
                        pass
                else:
                    cf.NewBlock("fr", parent="x")
                    blocks.add("fr")
            elif op[0] == "reread":
                cf = CifFile.ReadCif(io.StringIO(cf.WriteOut()), grammar="2.0")
                locked = not cf["x"].overwrite
            x = cf["x"]
            got = {k: (x.true_case[k], x[k]) for k in x.keys()}
            check(got == model, "overwrite:content", lambda: "items %s, expected %s (history %s)" % (got, model, hist))
            check(set(cf.child_table) == blocks, "overwrite:blocks", lambda: "blocks %s, expected %s (history %s)" % (sorted(cf.child_table), sorted(blocks), hist))
        return repr((sorted(model.items()), locked, sorted(blocks))), None
    ctx.bfs("locking", [()], lambda h, info: OPS, lambda h, st: run_hist(h, st), 4 if ctx.quick else 6)
