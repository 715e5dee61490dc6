"""C02: blocks, loops, lists, tables and frames survive WriteOut/ReadCif."""
import io, itertools
from mc.core import check, Skip, short


def plain(v):
    if isinstance(v, dict):
        return {"__t": [(k, plain(x)) for k, x in sorted(v.items())]}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def block_view(b):
    """Everything a user can see of a block: spelled names, values, loops with
    their columns, order of items and loops."""
    order = []
    for o in b.GetItemOrder():
        if isinstance(o, int):
            order.append(tuple(n.lower() for n in b.loops[o]))
        else:
            order.append(o.lower())
    return {"items": {n: plain(b[n]) for n in b.keys()},
            "spelled": sorted(b.true_case[n.lower()] for n in b.keys()),
            "loops": sorted(tuple(n.lower() for n in l) for l in b.loops.values()),
            "order": order}


def file_view(cf):
    tree = {k: (v.block_id, v.parent) for k, v in cf.child_table.items()}
    return {"tree": tree, "blocks": {k: block_view(cf.dictionary[k]) for k in cf.dictionary},
            "order": [k for k in cf.block_input_order]}


def roundtrip(CifFile, cf, g, what):
    exp = file_view(cf)
    for stage in (1, 2):
        s = cf.WriteOut()
        check(file_view(cf) == exp, "writing-changes-data", lambda: "after writing: %r, before: %r" % (file_view(cf), exp))
        cf = CifFile.ReadCif(io.StringIO(s), grammar=g)
        cf.set_grammar(g)
        got = file_view(cf)
        for part in ("tree", "order", "blocks"):
            if got[part] != exp[part]:
                check(False, "%s:%s" % (what, part), "grammar %s stage %d\n wrote %s\n read  %s\n text %s" % (
                    g, stage, short(repr(exp[part]), 700), short(repr(got[part]), 700), short(s[s.find("data_"):], 900)))


def newfile(CifFile, g):
    cf = CifFile.CifFile()
    cf.set_grammar(g)
    return cf


def newblock(CifFile, g):
    b = CifFile.CifBlock()
    if g in ("2.0", "STAR2"):
        b.set_characterset("unicode")
    return b


def shapes(n):
    """All list/table/leaf trees with exactly n nodes: leaf -> 0, list -> ('L', children), table -> ('T', children)."""
    if n == 1:
        yield 0
        yield ("L", ())
        yield ("T", ())
        return
    for kind in "LT":
        for kids in forests(n - 1):
            yield (kind, kids)


def forests(n):
    if n == 0:
        yield ()
        return
    for first in range(1, n + 1):
        for a in shapes(first):
            for rest in forests(n - first):
                yield (a,) + rest


KEYS = ["k", "K", "m n", "z", "q", "r", "s", "u"]


def build(shape, leaves, SL, SD):
    if shape == 0:
        return next(leaves)
    kind, kids = shape
    if kind == "L":
        return SL([build(k, leaves, SL, SD) for k in kids])
    return SD([(KEYS[i], build(k, leaves, SL, SD)) for i, k in enumerate(kids)])


def nleaves(shape):
    return 1 if shape == 0 else sum(nleaves(k) for k in shape[1])


def run(ctx):
    import CifFile
    from CifFile import StarError
    from CifFile.StarFile import StarList as SL, StarDict as SD
    ctx.level = "exploration"
    ctx.rule = ("a case is (structure, leaf texts, grammar): all list/table trees up to the node bound, all loop shapes up to the "
                "bound filled from a set of cell values, all block/frame trees up to the bound; non-trivial = written, re-read and compared")
    ctx.assumptions = ["tables and lists are given as StarDict/StarList", "frames nested deeper than one level only in STAR2"]
    G2 = ("2.0", "STAR2")

    # ---- trees
    def f_tree(case, st):
        shape, leaves, g = case
        v = build(shape, iter(leaves), SL, SD)
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        b["_before"] = "x y"
        b["_V"] = v
        b["_after"] = "z"
        b["_c1"] = [v, "k", v]
        b["_c2"] = ["l", v, v]
        b.CreateLoop(["_c1", "_c2"])
        cf["t"] = b
        roundtrip(CifFile, cf, g, "tree")

    def g_tree():
        N = 5 if ctx.quick else 6
        for n in range(1, N + 1):
            for sh in forests(n - 1):
                for kind in "LT":
                    s = (kind, sh)
                    m = nleaves(s)
                    lv = ["a", "b c", "p\nq", ""] if m <= 2 else ["a", "p\n;q'\""]
                    for leaves in itertools.product(lv, repeat=m):
                        for g in G2:
                            yield s, leaves, g
    ctx.explore("trees", g_tree, f_tree)

    # ---- deep nesting chains
    def g_deep():
        for d in range(1, 8 if ctx.quick else 11):
            for kinds in itertools.product("LT", repeat=d):
                for leaf in ("a", "p\nq"):
                    for extra in (0, 1):
                        s = 0
                        for k in kinds:
                            s = (k, (s,) + (0,) * extra)
                        yield s, tuple([leaf] * nleaves(s)), "2.0"
                        if d < 6:
                            yield s, tuple([leaf] * nleaves(s)), "STAR2"
    ctx.explore("deep", g_deep, f_tree)

    # ---- keys
    keys = ["k", "", " ", "a b", "it's", 'say "x"', "x:y", "{", "}", "[", "]", ",", "#", "_a", "data_b", "\\", "'", '"', "''", "a'\"b",
            "two\nlines", "\u00e9", "K", "k:", "'''", '"""', "'x\"", "\"x'", "a\n;b", ";", "tab\t", "loop_", "x" * 90]

    def expressible(k):
        return any(d not in k and not k.endswith(d[0]) and (len(d) == 3 or "\n" not in k) for d in ("'", '"', "'''", '"""'))

    def f_key(case, st):
        ks, v, g = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        b["_t"] = SD([(k, v if i else "a") for i, k in enumerate(ks)])
        b["_after"] = "b"
        cf["t"] = b
        try:
            cf.WriteOut()
        except StarError:     # a key no delimiter can express is refused
            check(not all(expressible(k) for k in ks), "key-refused", lambda: "keys %r refused" % (ks,))
            raise Skip()
        roundtrip(CifFile, cf, g, "keys")

    def g_key():
        for k in (1, 2, 3):
            for ks in itertools.permutations(keys if k < 3 else keys[:12], k):
                if k == 3 and ctx.quick and ks[0] > ks[1]:
                    continue
                for v in ("a", SL(["x", "y"])):
                    for g in G2:
                        yield list(ks), v, g
    ctx.explore("keys", g_key, f_key)

    # ---- loops
    cells1 = ["a", "", "b c", "p\nq", "'", "?"]
    cells2 = ["a", "b c", "p\nq", SL(["u", SL(["v w"])]), SD([("k", "1"), ("l", SL(["2"]))]), SL([])]

    def f_loop(case, st):
        shape, vals, g, width = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        b["_pre"] = "x"
        it = iter(vals)
        names = []
        nb = 0
        for cols, rows in shape:
            nn = []
            for c in range(cols):
                n = "_L%d.c%d" % (nb, c)
                b[n] = [next(it) for r in range(rows)]
                nn.append(n)
            b.CreateLoop(nn)
            nb += 1
        b["_post"] = "y" * width
        cf["T"] = b
        roundtrip(CifFile, cf, g, "loop")

    def g_loop():
        for g in ("1.0", "1.1", "2.0", "STAR2"):
            cells = cells1 if g[0] == "1" else cells2
            for cols, rows in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 3)):
                for vals in itertools.product(cells, repeat=cols * rows):
                    yield ((cols, rows),), vals, g, 1
            sm = cells[:3] if g[0] == "1" else [cells[0], cells[2], cells[3]]
            for cols, rows in ((2, 3), (3, 2)):
                for vals in itertools.product(sm, repeat=6):
                    yield ((cols, rows),), vals, g, 1
            for s2 in (((1, 1), (1, 1)), ((1, 2), (2, 1)), ((2, 1), (1, 1), (1, 2))):
                m = sum(c * r for c, r in s2)
                for vals in itertools.product(sm if m > 4 else cells[:4], repeat=m):
                    yield s2, vals, g, 1
            # many columns / many rows of one width (line wrapping)
            for cols in range(1, 14):
                for rows in (1, 2, 5):
                    for w in (1, 7, 8, 9, 10, 19, 39, 40, 41, 77, 78, 79, 80, 81, 200):
                        for ch in ("x", "'"):
                            yield ((cols, rows),), tuple([ch * w] * (cols * rows)), g, w
    ctx.explore("loops", g_loop, f_loop)

    # ---- wrapped lists and tables
    def f_wrap(case, st):
        n, w, kind, ch, g, namew = case
        cf = newfile(CifFile, g)
        b = newblock(CifFile, g)
        el = ch * w
        if kind == "L":
            v = SL([el] * n)
        elif kind == "T":
            v = SD([("k%d" % i, el) for i in range(n)])
        elif kind == "LL":
            v = SL([SL([el] * 3)] * n)
        elif kind == "LT":
            v = SL([SD([("key", el), ("l", "2")])] * n)
        else:
            v = SD([("k%d" % i, SL([el, el])) for i in range(n)])
        b["_" + "n" * namew] = v
        b["_z1"] = ["a", v]
        b["_z2"] = [v, "b"]
        b["_z3"] = ["c", "d"]
        b.CreateLoop(["_z1", "_z2", "_z3"])
        cf["t"] = b
        roundtrip(CifFile, cf, g, "wrap")

    def g_wrap():
        for g in G2:
            for kind in ("L", "T", "LL", "LT", "TL"):
                for n in ((0, 1, 2, 3, 5, 9, 20) if ctx.quick else range(0, 30)):
                    for w in ([1, 2, 3, 7, 17, 34, 35, 36, 38, 39, 40, 70, 74, 75, 76, 77, 78, 79, 80, 90, 300] if ctx.quick else list(range(1, 92)) + [300]):
                        for ch in ("x", "[", "'"):
                            for namew in (3, 60):
                                if namew == 60 and ch != "x":
                                    continue
                                yield n, w, kind, ch, g, namew
    ctx.explore("wrap", g_wrap, f_wrap)

    # ---- blocks and frames
    def trees(n):
        """all parent vectors of n named nodes: node i has parent None or an earlier node"""
        for p in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
            yield p

    def f_blocks(case, st):
        parents, order, g, content = case
        cf = newfile(CifFile, g)
        names = ["Bl%d" % i for i in order]
        for i, p in enumerate(parents):
            b = newblock(CifFile, g)
            if content & 1:
                b["_name"] = names[i]
            if content & 2:
                b["_c"] = [names[i], "x y"]
                b.CreateLoop(["_c"])
            cf.NewBlock(names[i], b, parent=None if p is None else names[p])
        exp = file_view(cf)
        s = cf.WriteOut()
        r = CifFile.ReadCif(io.StringIO(s), grammar=g)
        got = file_view(r)
        check(got["tree"] == exp["tree"], "frames:tree", lambda: "grammar %s wrote %r read %r text %s" % (g, exp["tree"], got["tree"], short(s[s.find("data_"):])))
        check(got["blocks"] == exp["blocks"], "frames:blocks", lambda: "grammar %s wrote %r read %r" % (g, exp["blocks"], got["blocks"]))
        top = lambda v: [k for k in v["order"] if v["tree"][k][1] is None]
        check(top(got) == top(exp), "frames:order", lambda: "grammar %s order wrote %r read %r" % (g, top(exp), top(got)))

    def g_blocks():
        for n in range(0, 5 if ctx.quick else 6):
            for parents in trees(n):
                depth = {}
                for i, p in enumerate(parents):
                    depth[i] = 0 if p is None else depth[p] + 1
                for order in ([tuple(range(n)), tuple(reversed(range(n)))] if n > 3 else itertools.permutations(range(n))):
                    for g in ("1.0", "1.1", "2.0", "STAR2"):
                        if g != "STAR2" and depth and max(depth.values()) > 1:
                            continue
                        for content in (0, 1, 2, 3):
                            yield parents, tuple(order), g, content
    ctx.explore("blocks", g_blocks, f_blocks)
