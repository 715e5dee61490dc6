"""C08: merging of blocks and files in each mode."""
import itertools, re
from mc.core import check, Skip, short

NAMES = ["_a", "_b", "_c"]


# ---- blocks: layout = per name: None | "s" | loop number; rows = rows per loop
def layouts(names):
    for combo in itertools.product([None, "s", 1, 2], repeat=len(names)):
        used = sorted(set(c for c in combo if isinstance(c, int)))
        if used == [2]:
            continue
        firsts = [c for c in combo if isinstance(c, int)]
        if firsts and firsts[0] == 2:
            continue
        for rows in itertools.product([1, 2], repeat=len(used)):
            yield combo, rows


def model_block(names, lay, tag, upper):
    """-> (items {lower: (spelling, value)}, loops: list of frozensets)"""
    combo, rows = lay
    items, loops = {}, []
    for n, c in zip(names, combo):
        if c is None:
            continue
        sp = n.upper() if upper else n
        if c == "s":
            items[n] = (sp, tag)
        else:
            items[n] = (sp, [tag + n + str(i) for i in range(rows[c - 1])])
    for k in (1, 2):
        l = [n for n, c in zip(names, combo) if c == k]
        if l:
            loops.append(l)
    return items, loops


def real_block(CifFile, mb):
    b = CifFile.CifBlock()
    items, loops = mb
    for k, (sp, v) in items.items():
        b[sp] = v if isinstance(v, str) else list(v)
    for l in loops:
        b.CreateLoop(list(l))
    return b


def seen(b):
    items = {k: (b.true_case[k] if k in getattr(b, "true_case", {}) else None, b[k]) for k in b.keys()}
    loops = {}
    for k in b.keys():
        n = b.FindLoop(k)
        if n >= 0:
            loops.setdefault(n, []).append(k)
    order = b.GetItemOrder()
    flat = sorted(str(x) for x in order)
    want = sorted([str(n) for n in loops] + [k for k in b.keys() if b.FindLoop(k) < 0])
    check(flat == want, "item-order", lambda: "item order %r, items %r" % (order, want))
    for n, l in loops.items():
        check(set(b.GetLoop(l[0]).keys()) == set(l), "loop-names", lambda: "loop %r" % l)
        check(len(set(len(b[k]) for k in l)) == 1, "ragged-loop", lambda: "columns %r differ in length" % l)
    return items, sorted(frozenset(l) and tuple(sorted(l)) for l in loops.values())


def norm(mb):
    return mb[0], sorted(tuple(sorted(l)) for l in mb[1])


def merge_model(A, B, mode, match):
    """-> merged or None when refused"""
    ia, la = dict(A[0]), [list(l) for l in A[1]]
    new = [k for k in B[0] if k not in match]
    if mode == "overlay":
        return None
    if mode == "strict" and any(k in ia for k in new):
        return None
    for k in new:
        for l in la:
            if k in l:
                l.remove(k)
        ia[k] = B[0][k]
    for l in B[1]:
        c = [k for k in l if k in new]
        if c:
            la.append(c)
    return ia, [l for l in la if l]


def block_fn(CifFile):
    from CifFile import StarError

    def fn(case, st):
        l1, l2, mode, match, upper, default = case
        A, B = model_block(NAMES, l1, "L", upper), model_block(NAMES, l2, "R", not upper)
        a, b = real_block(CifFile, A), real_block(CifFile, B)
        exp = merge_model(A, B, mode, match)
        kw = {} if default else dict(mode=mode)
        if match:
            kw["match_att"] = list(match)
        try:
            a.merge(b, **kw)
            failed = None
        except StarError as e:
            failed = e
        check((exp is None) == (failed is not None), "refusal", lambda: "mode %s: %s" % (mode, "failed: %s" % failed if failed is not None else "conflict was not refused"))
        got = seen(a)
        want = norm(exp if exp is not None else A)
        check(got == want, "merged-block" if exp else "refused-but-changed", lambda: "mode %s gives %r, expected %r" % (mode, got, want))
        check(seen(b) == norm(B), "incoming-changed", lambda: "incoming block became %r" % (seen(b),))
        text = str(a)
        for k, (sp, v) in want[0].items():
            check(sp in text.split(), "spelling", lambda: "%s not in %s" % (sp, text))
    return fn


# ---- files: list of (name, parent or None, content)
def trees(names, tag):
    """every forest over a subset of the names"""
    for r in range(0, len(names) + 1):
        for sub in itertools.permutations(names, r):
            if list(sub) != sorted(sub) and r == 3:
                continue
            for par in itertools.product(*[[None] + list(sub[:i]) for i in range(r)]):
                yield [(n, p, tag + n) for n, p in zip(sub, par)]


def real_file(CifFile, t, scope, standard, spell=lambda s: s, **kw):
    f = CifFile.CifFile(scoping=scope, standard=standard, blocktype=CifFile.CifBlock)
    for n, p, c in t:
        b = CifFile.CifBlock()
        b["_content"] = c
        f.NewBlock(spell(n), b, parent=p)
    return f


def file_seen(f):
    return [(k, f.child_table[k].block_id, f.get_parent(k), f[k]["_content"]) for k in f.block_input_order]


def file_fn(CifFile):
    from CifFile import StarError

    def fn(case, st):
        ta, tb, mode, scope, standard, how, parent = case
        ma = {n: [n, p, c] for n, p, c in ta}
        order = [n for n, p, c in ta]
        a = real_file(CifFile, ta, scope, standard)
        b = real_file(CifFile, tb, scope, standard, spell=str.upper)
        inc = file_seen(b)
        eff = mode or ("replace" if standard is None else "strict")
        if how == "fast":
            eff = "replace" if standard is None else "strict"
        if parent is not None and parent not in ma:
            raise Skip
        for n, p, c in tb:
            top = p is None and parent is None
            if n in ma and (ma[n][1] is None) != top:
                raise Skip        # frame and block of one name
            if n == parent:
                raise Skip
        if how == "fast" and parent is not None and set(ma) & set(n for n, p, c in tb):
            raise Skip            # duplicate frames are kept under changed keys by design
        if how == "fast" and standard is not None and scope == "instance" and any(n in ma and ma[n][1] is not None for n, p, c in tb):
            raise Skip            # frames of different blocks may share a name: kept under a changed key by design
        conflict = any(n in ma for n, p, c in tb)
        refused = conflict and eff in ("strict", "overlay")
        if not refused:
            for n, p, c in tb:
                if n in ma:
                    ma[n][2] = c
                    if how == "fast":
                        ma[n][0] = n.upper()
                else:
                    ma[n] = [n.upper(), None, c]
                    order.append(n)
                pp = p if p is not None else parent
                if pp is not None:
                    ma[n][1] = pp
            # a merged hierarchy must remain a tree
            for n in ma:
                k, seen_ = n, set()
                while k is not None:
                    if k in seen_:
                        raise Skip
                    seen_.add(k)
                    k = ma[k][1]
        try:
            if how == "fast":
                if parent is None:
                    a.merge_fast(b)
                else:
                    a.merge_fast(b, parent=a[parent])
            else:
                kw = {}
                if mode:
                    kw["mode"] = mode
                if parent:
                    kw["parent"] = parent
                a.merge(b, **kw)
            failed = None
        except StarError as e:
            failed = e
        check(refused == (failed is not None), "file-refusal", lambda: "mode %s: %s" % (eff, "failed: %s" % failed if failed is not None else "conflict was not refused"))
        got = file_seen(a)
        want = [(n, ma[n][0], ma[n][1], ma[n][2]) for n in order]
        check(sorted(got) == sorted(want), "merged-file" if not refused else "refused-but-changed", lambda: "mode %s gives %r, expected %r" % (eff, got, want))
        check([g[0] for g in got][:len(ta)] == [n for n, p, c in ta], "block-order", lambda: "order %r" % (got,))
        vis = sorted(n for n in ma if scope == "dictionary" or ma[n][1] is None)
        check(sorted(a.keys()) == vis and len(a) == len(vis), "visible", lambda: "keys %r, expected %r" % (sorted(a.keys()), vis))
        check(file_seen(b) == inc, "incoming-file-changed", lambda: "incoming became %r" % (file_seen(b),))
        for g in ("1.1", "STAR2"):
            a.set_grammar(g)
            t = a.WriteOut()
            for n in ma:
                check(t.count(ma[n][2]) == 1, "output", lambda: "grammar %s writes %r %d times: %r" % (g, ma[n][2], t.count(ma[n][2]), t))
    return fn


# ---- frames that share names: kept, under changed keys if need be
def struct(f):
    """{content: (printed name, content of parent or None)}"""
    out = {}
    for k in f.block_input_order:
        p = f.get_parent(k)
        out[f[k]["_content"]] = (f.child_table[k].block_id.lower(), None if p is None else f[p]["_content"])
    return out


def shared_fn(CifFile):
    from CifFile import StarError

    def fn(case, st):
        ta, tb, scope, parent = case
        a = real_file(CifFile, ta, scope, "CIF")
        b = real_file(CifFile, tb, scope, "CIF", spell=str.upper)
        if parent is not None and parent not in [n for n, p, c in ta]:
            raise Skip
        clash = []
        for n, p, c in tb:
            for n2, p2, c2 in ta:
                if n == n2:
                    top2 = p is None and parent is None
                    if (p2 is None and top2) or (p2 is not None and not top2 and parent is None and scope == "dictionary"):
                        clash.append(n)
        want, inc = struct(a), struct(b)
        before = struct(a)
        pc = None if parent is None else a[parent]["_content"]
        for c, (n, p) in inc.items():
            want[c] = (n, p if p is not None else pc)
        try:
            a.merge_fast(b, **({} if parent is None else dict(parent=a[parent])))
            failed = None
        except StarError as e:
            failed = e
        check(bool(clash) == (failed is not None), "shared-refusal", lambda: "failed: %s; clash %r" % (failed, clash))
        got = struct(a)
        if failed is not None:
            check(got == before, "shared-refused-but-changed", lambda: "%r instead of %r" % (got, before))
            return
        check(got == want, "shared-merged", lambda: "%r, expected %r" % (got, want))
        check(struct(b) == inc, "shared-incoming", lambda: "%r, was %r" % (struct(b), inc))
        vis = set(c for c, (n, p) in want.items() if scope == "dictionary" or p is None)
        check(set(a[k]["_content"] for k in a.keys()) == vis and len(a.keys()) == len(vis), "shared-visible", lambda: "%r" % (a.keys(),))
        for g in ("1.1", "STAR2"):
            a.set_grammar(g)
            t = a.WriteOut()
            for c, (n, p) in want.items():
                check(t.count(c) == 1, "shared-output", lambda: "grammar %s writes %r %d times: %r" % (g, c, t.count(c), t))
            heads = sorted(l.strip().lower() for l in t.split("\n") if re.match("\\s*(data_|save_)\\S", l))
            exp = sorted(("data_" if p is None else "save_") + n for n, p in want.values())
            check(heads == exp, "shared-headings", lambda: "grammar %s writes headings %r, expected %r" % (g, heads, exp))
    return fn


# ---- blocks matched by an item
def match_fn(CifFile):
    from CifFile import StarError

    def fn(case, st):
        va, vb, mode, scope, idblock = case
        a = CifFile.CifFile(scoping=scope)
        b = CifFile.CifFile(scoping=scope)
        for i, v in enumerate(va):
            k = CifFile.CifBlock()
            k["_content"] = "L%d" % i
            if v is not None:
                k["_name"] = v if isinstance(v, str) else list(v)
            a["b%d" % i] = k
        for i, (bn, v) in enumerate(vb):
            k = CifFile.CifBlock()
            k["_content"] = "R%d" % i
            if v is not None:
                k["_name"] = v if isinstance(v, str) else list(v)
            b[bn] = k
        want = {"b%d" % i: "L%d" % i for i in range(len(va))}
        free = list(range(len(va)))
        plan = []
        for i, (bn, v) in enumerate(vb):
            if bn == idblock:
                continue
            tgt = bn
            for j in free:
                if v is not None and (va[j] == v or (isinstance(va[j], tuple) and v in va[j])):
                    tgt = "b%d" % j
                    free.remove(j)
                    break
            plan.append((tgt, "R%d" % i))
        if len(set(t for t, c in plan)) < len(plan):
            raise Skip            # two incoming definitions of one of ours
        refused = mode != "replace" and any(t in want for t, c in plan)
        if not refused:
            want.update(plan)
        try:
            a.merge(b, mode=mode, match_att=["_name"], **(dict(idblock=idblock) if idblock else {}))
            failed = None
        except StarError as e:
            failed = e
        check(refused == (failed is not None), "match-refusal", lambda: "mode %s: %s" % (mode, "failed: %s" % failed if failed is not None else "conflict was not refused"))
        got = {k: a[k]["_content"] for k in a.keys()}
        check(got == want, "matched-merge", lambda: "mode %s gives %r, expected %r" % (mode, got, want))
    return fn


def run(ctx):
    import CifFile
    ctx.level = "exploration"
    ctx.rule = ("every pair of small blocks (each of three items absent, single, or in one of two loops of one or two rows) and of small block/frame trees, "
                "in every mode; result, refusal, loops, order of the receiving file and the untouched incoming file compared with a reference merge")
    ctx.assumptions = ["overlay mode of two blocks is refused by the library as not implemented; the check demands that nothing changes then",
                       "frames and data blocks that are merged do not share names, and the merged hierarchy is a tree", "blocks are not locked"]

    def g_blocks():
        ls = list(layouts(NAMES))
        for l1 in ls:
            for l2 in ls:
                for mode in ("strict", "replace", "overlay"):
                    if mode == "overlay" and (l1[1] or l2[1]):
                        continue
                    yield (l1, l2, mode, (), False, False)
                yield (l1, l2, "strict", (), True, True)
                if not ctx.quick or l1[1][:1] != (1,):
                    yield (l1, l2, "strict", ("_a",), False, False)
                    yield (l1, l2, "replace", ("_a",), True, False)
                    yield (l1, l2, "replace", ("_b", "_c"), False, False)
    ctx.explore("blocks", g_blocks, block_fn(CifFile))

    def g_files():
        A = list(trees(["x", "y", "z"], "L"))
        B = list(trees(["x", "y", "w"], "R"))
        for ta in A:
            for tb in B:
                for scope in ("instance", "dictionary"):
                    for standard in ("CIF", None, "Dic"):
                        if standard == "Dic" and ctx.quick and scope == "instance":
                            continue
                        for mode in (None, "strict", "replace", "overlay"):
                            yield (ta, tb, mode, scope, standard, "merge", None)
                        yield (ta, tb, None, scope, standard, "fast", None)
                        for parent in ("x", "z"):
                            yield (ta, tb, None, scope, standard, "fast", parent)
                            yield (ta, tb, "replace", scope, standard, "merge", parent)
                            yield (ta, tb, "strict", scope, standard, "merge", parent)
    ctx.explore("files", g_files, file_fn(CifFile))

    def g_shared():
        A = list(trees(["x", "y", "z"], "L"))
        B = list(trees(["x", "y", "w"], "R"))
        for ta in A:
            for tb in B:
                for scope in ("instance", "dictionary"):
                    for parent in (None, "x", "y", "z"):
                        yield (ta, tb, scope, parent)
    ctx.explore("shared names", g_shared, shared_fn(CifFile))

    def g_match():
        V = [None, "n1", "n2", ("n1", "n2"), ("n3", "n1")]
        for n in (1, 2, 3):
            for va in itertools.product(V, repeat=n):
                for m in (1, 2):
                    for names in itertools.permutations(["b0", "b1", "c0"], m):
                        for vv in itertools.product([None, "n1", "n2", "n3"], repeat=m):
                            for mode in ("strict", "replace", "overlay"):
                                for scope in ("instance", "dictionary"):
                                    yield (va, tuple(zip(names, vv)), mode, scope, None)
                            yield (va, tuple(zip(names, vv)), "replace", "dictionary", names[0])
    ctx.explore("matched", g_match, match_fn(CifFile))
