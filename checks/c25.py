"""C25: copies are equal at first and independent for ever."""
import io, itertools
from mc.core import check, Skip, short


def start(CifFile, kind):
    from CifFile import StarFile as S
    if kind == "built":
        b = CifFile.CifBlock()
        b["_One"] = "1"
        b["_a"] = ["1", "2"]
        b["_B"] = ["x", "y"]
        b.CreateLoop(["_a", "_B"])
        b["_c"] = ["7"]
        b.CreateLoop(["_c"], order=0)
        b["_num"] = 5
        return b
    if kind == "nested":
        b = CifFile.CifBlock()
        b["_One"] = S.StarList(["1", S.StarList(["2", "3"])])
        b["_a"] = [S.StarList(["p", "q"]), S.StarDict({"k": "v"})]
        b["_B"] = [S.StarDict({"m": S.StarList(["n"])}), "y"]
        b.CreateLoop(["_a", "_B"])
        b["_c"] = [1, 2.5]
        b.CreateLoop(["_c"])
        b["_num"] = S.StarDict({"k": S.StarList(["z"])})
        return b
    if kind == "read":
        return CifFile.ReadCif(io.StringIO("data_t\n_One 1\nloop_ _a _B 1 x 2 y\nloop_ _c 7\n_num 5\n"), grammar="1.1")["t"]
    if kind == "read2":
        return CifFile.ReadCif(io.StringIO("#\\#CIF_2.0\ndata_t\n_One [1 [2 3]]\nloop_ _a _B [p q] {'m':[n]} {'k':v} y\nloop_ _c 7\n_num {'k':[z]}\n"), grammar="2.0")["t"]
    if kind == "unicode":
        b = CifFile.CifBlock(characterset="unicode")
        b["_One"] = "1"
        b[u"_\u00e9"] = ["1", "2"]
        b["_a"] = ["1", "2"]
        b.CreateLoop(["_a", u"_\u00e9"])
        b["_B"] = "v"
        b["_c"] = ["q", "r"]
        b["_num"] = "1"
        return b
    if kind == "loose":
        b = CifFile.CifBlock(strict=0, compat_mode=True)
        b["_One"] = "1"
        b["_" + "x" * 80] = "long"
        b["_a"] = ["1", "2"]
        b["_B"] = ["1", "2"]
        b["_c"] = ["q"]
        b["_num"] = "1"
        return b
    if kind == "empty":
        return CifFile.CifBlock()


KINDS = ["built", "nested", "read", "read2", "unicode", "loose", "empty"]


def copiers(CifFile):
    from CifFile.StarFile import StarBlock
    return {"copy()": lambda b: b.copy(), "CifBlock(b)": lambda b: CifFile.CifBlock(b) if b.characterset == "ascii" and b.maxnamelength > 0 else None,
            "CifBlock(data=b)": lambda b: CifFile.CifBlock(data=b, characterset=b.characterset, strict=b.maxnamelength > 0, compat_mode=getattr(b, "compat_mode", False)),
            "StarBlock(b)": lambda b: StarBlock(b, characterset=b.characterset), "StarBlock(b).copy()": lambda b: StarBlock(b, characterset=b.characterset).copy()}


def deep(v):
    if isinstance(v, dict):
        return (type(v).__name__, sorted((k, deep(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [deep(x) for x in v])
    return (type(v).__name__, v)


def snap(b):
    loops = {}
    for k in b.keys():
        n = b.FindLoop(k)
        if n >= 0:
            loops[n] = tuple(b.GetLoop(k).keys())
    b.set_grammar("2.0")
    try:
        text = str(b)
    except Exception as e:
        text = type(e).__name__
    return (sorted((k, deep(b.GetItemValue(k))) for k in b.keys()), sorted(loops.items()), b.GetItemOrder(), text)


def nestedpos(v):
    """first nested container inside v"""
    for x in (v.values() if isinstance(v, dict) else v):
        if isinstance(x, (list, dict)):
            return x
    return None


def ed_setattr_row(b):
    p = b.GetLoop("_a").GetPacket(0)
    p._a = "changed"
    p[0] = "changed"


def ed_addpacket(b):
    L = b.GetLoop("_a")
    p = L.GetPacket(0)
    p._a = "added"
    L.AddPacket(p)


def ed_rmpacket(b):
    b.RemoveKeyedPacket("_a", b["_a"][0])


def ed_append(b):
    b.GetItemValue("_a").append("grown")
    if isinstance(b.GetItemValue("_B"), list):
        b.GetItemValue("_B").append("grown")


def ed_inplace(b):
    v = b.GetItemValue("_c")
    v[0] = "changed"


def ed_nested(b):
    for k in ("_one", "_a", "_b", "_num"):
        v = b.GetItemValue(k) if k in b else None
        if isinstance(v, (list, dict)):
            x = nestedpos(v)
            if isinstance(x, dict):
                x["new"] = "changed"
            elif x is not None:
                x.append("changed")
            if isinstance(v, dict):
                v["new"] = "changed"
            elif k == "_one":
                v[0] = "changed"


def ed_deepest(b):
    def walk(v):
        for x in (list(v.values()) if isinstance(v, dict) else list(v)):
            if isinstance(x, (list, dict)):
                walk(x)
        if isinstance(v, dict):
            for k in v:
                if not isinstance(v[k], (list, dict)):
                    v[k] = "deep"
        else:
            for i in range(len(v)):
                if not isinstance(v[i], (list, dict)):
                    v[i] = "deep"
    for k in list(b.keys()):
        v = b.GetItemValue(k)
        if isinstance(v, (list, dict)):
            walk(v)


def setitem(n, v):
    def f(b):
        b[n] = v
    return f


EDITS = {
    "set": setitem("_one", "changed"), "spell": setitem("_ONE", "1"), "setcol": setitem("_A", ["8", "9"]), "new": setitem("_new", "n"), "del": lambda b: b.__delitem__("_one"),
    "delcol": lambda b: b.__delitem__("_b"), "delloop": lambda b: b.__delitem__("_c"), "addpacket": ed_addpacket, "rmpacket": ed_rmpacket, "append": ed_append,
    "inplace": ed_inplace, "nested": ed_nested, "deepest": ed_deepest, "row": ed_setattr_row,
    "order": lambda b: b.ChangeItemOrder("_one", 2), "colorder": lambda b: b.GetLoop("_a").ChangeItemOrder("_a", 1), "regroup": lambda b: b.CreateLoop(["_a"]),
    "addcol": lambda b: b.GetLoop("_a").__setitem__("_new", ["5", "6"]), "addname": lambda b: b.AddLoopName("_a", "_c"), "clear": lambda b: b.clear(), "update": lambda b: b.update({"_one": "u", "_z": "z"}),
    "lengths": lambda b: b.SetOutputLength(40, 60), "overwrite": lambda b: setattr(b, "overwrite", False), "merge": lambda b: b.merge(b.__class__(), "replace"),
}


def attempt(b, e):
    try:
        EDITS[e](b)
    except Exception as x:
        return type(x).__name__
    return None


def block_fn(CifFile):
    C = copiers(CifFile)

    def fn(case, st):
        kind, how, side, edits = case
        orig = start(CifFile, kind)
        ref = start(CifFile, kind)          # same content, never copied
        before = snap(start(CifFile, kind))
        cp = C[how](orig)
        if cp is None:
            raise Skip
        check(snap(cp) == before, "copy-differs", lambda: "%s of %s holds %s, expected %s" % (how, kind, short(snap(cp)), short(before)))
        check(snap(orig) == before, "original-changed-by-copy", lambda: short(snap(orig)))
        if how in ("copy()", "CifBlock(data=b)"):
            check(isinstance(cp, type(orig) if how == "copy()" else CifFile.CifBlock), "copy-type", lambda: "%r" % type(cp))
        if side == "chain":
            cp2 = cp.copy()
            del orig
            orig, cp = cp, cp2
            ed, other = cp, orig
        else:
            ed, other = (orig, cp) if side == "orig" else (cp, orig)
        for e in edits:
            r1 = attempt(ed, e)
            check(snap(other) == before, "edit-leaks", lambda: "%s on the %s changed the other side to %s" % (e, side, short(snap(other))))
            r2 = attempt(ref, e)
            if kind != "loose" or how.endswith("copy()") and not how.startswith("Star"):
                check(r1 == r2, "edit-result", lambda: "%s on %s: %s, on a block that was never copied: %s" % (e, side, r1, r2))
                check(snap(ed) == snap(ref), "edit-differs", lambda: "%s gives %s, on a block that was never copied %s" % (e, short(snap(ed)), short(snap(ref))))
        # and the untouched side can still be edited
        for e in ("set", "setcol", "addpacket"):
            s = snap(ed)
            attempt(other, e)
            check(snap(ed) == s, "edit-leaks-back", lambda: "%s changed the other side" % e)
    return fn


def mkfile(CifFile, kind):
    f = CifFile.CifFile(scoping="dictionary" if kind == "dict" else "instance")
    f["B1"] = start(CifFile, "built")
    f["b2"] = start(CifFile, "nested")
    if kind == "dict" or kind == "frames":
        f.NewBlock("Fr", start(CifFile, "read"), parent="b1")
        f.NewBlock("fs", start(CifFile, "built"), parent="fr")
    if kind == "template":
        t = io.StringIO("#\\#CIF_2.0\ndata_tt\n_One   'x'\nloop_\n_a\n_B\n1 2\n")
        f.SetTemplate(t)
    return f


def fsnap(f):
    out = [sorted(f.keys()), len(f), list(f.block_input_order)]
    for k in f.block_input_order:
        out.append((k, f.get_parent(k), f.child_table[k].block_id, snap(f[k])))
    for g in ("2.0", "STAR2"):
        f.set_grammar(g)
        out.append(f.WriteOut())
    f.set_grammar("2.0")
    return out


def tmpl2(f):
    f.SetTemplate(io.StringIO("#\\#CIF_2.0\ndata_tt\n_num \"x\"\n_One       \"x\"\n"))


FEDITS = {"del": lambda f: f.__delitem__("b1"), "delframe": lambda f: f.__delitem__("fr"), "rename": lambda f: f.rename("b1", "new"), "renameframe": lambda f: f.rename("fr", "new"),
          "new": lambda f: f.__setitem__("b3", f["b1"].__class__()), "newframe": lambda f: f.NewBlock("g", f["b1"].__class__(), parent="b2"),
          "reparent": lambda f: f.set_parent("b2", "fs"), "scope": lambda f: setattr(f, "scoping", "dictionary"), "clear": lambda f: f.clear(), "template": tmpl2,
          "lock": lambda f: f.lock(), "edit": lambda f: f["b1"].__setitem__("_one", "changed"), "editcol": lambda f: ed_addpacket(f["b1"]), "editnested": lambda f: ed_deepest(f["b2"]),
          "editframe": lambda f: f["fr"].__delitem__("_a"), "order": lambda f: f["b1"].ChangeItemOrder("_one", 1), "comment": lambda f: setattr(f, "header_comment", "#hello\n")}


def file_fn(CifFile):
    def run1(f, e):
        try:
            FEDITS[e](f)
        except Exception as x:
            return type(x).__name__

    def fn(case, st):
        kind, side, edits = case
        f, ref = mkfile(CifFile, kind), mkfile(CifFile, kind)
        before = fsnap(mkfile(CifFile, kind))
        g = f.copy()
        check(isinstance(g, type(f)), "file-copy-type", lambda: "%r" % type(g))
        check(fsnap(g) == before, "file-copy-differs", lambda: "%s, expected %s" % (short(fsnap(g)), short(before)))
        check(not any(a is b for a in g for b in f), "shared-block", lambda: "copied file shares a block with its original")
        ed, other = (f, g) if side == "orig" else (g, f)
        for e in edits:
            r1 = run1(ed, e)
            check(fsnap(other) == before, "file-edit-leaks", lambda: "%s on the %s changed the other side to %s" % (e, side, short(fsnap(other))))
            r2 = run1(ref, e)
            check(r1 == r2, "file-edit-result", lambda: "%s: %s, on a file that was never copied: %s" % (e, r1, r2))
            check(fsnap(ed) == fsnap(ref), "file-edit-differs", lambda: "%s gives %s instead of %s" % (e, short(fsnap(ed)), short(fsnap(ref))))
    return fn


def run(ctx):
    import CifFile
    ctx.level = "model_checking"
    ctx.rule = ("every way of copying, every kind of block or file, every sequence of edits up to the depth on the original, the copy or a copy of the copy: "
                "the other side keeps its full snapshot and the edited side behaves like one that was never copied")
    ctx.assumptions = ["a block stored in a file by assignment stays the same object (documented use)"]
    n = 2 if ctx.quick else 3

    def g_blocks():
        for kind in KINDS:
            for how in copiers(CifFile):
                for side in ("orig", "copy", "chain"):
                    for m in range(1, n + 1):
                        for edits in itertools.product(EDITS, repeat=m):
                            yield (kind, how, side, edits)
    ctx.explore("blocks", g_blocks, block_fn(CifFile))

    def g_files():
        for kind in ("plain", "frames", "dict", "template"):
            for side in ("orig", "copy"):
                for m in range(1, n + 1):
                    for edits in itertools.product(FEDITS, repeat=m):
                        yield (kind, side, edits)
    ctx.explore("files", g_files, file_fn(CifFile))
