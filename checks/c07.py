"""C07: collections of blocks and save frames against a reference tree."""
import io, itertools, re
from mc.core import check, Skip, short

NAMES = ["x", "y", "z"]


class Refused(Exception):
    pass


class Model:
    """nodes: list of [key, printed name, parent key or None, content token] in input order"""
    def __init__(self, scope, replace):
        self.n, self.scope, self.replace = [], scope, replace

    def get(self, k):
        k = k.lower()
        for e in self.n:
            if e[0] == k:
                return e
        return None

    def desc(self, k):
        out, todo = [], [k.lower()]
        while todo:
            p = todo.pop()
            for e in self.n:
                if e[2] == p:
                    out.append(e[0])
                    todo.append(e[0])
        return out

    def new(self, name, parent):
        if parent is not None and self.get(parent) is None:
            raise Refused
        old = self.get(name)
        if old is not None:
            if self.replace:
                if parent is not None and (parent.lower() == old[0] or parent.lower() in self.desc(old[0])):
                    raise Refused
                self.rm(name)
            elif (old[2] is None) != (parent is None):
                raise Skip            # frame and block of one name: out of domain
            else:
                raise Refused
        self.n.append([name.lower(), name, parent.lower() if parent else None, name])

    def rm(self, name):
        e = self.get(name)
        if e is None:
            raise Refused
        gone = set(self.desc(name)) | {e[0]}
        self.n = [x for x in self.n if x[0] not in gone]

    def rename(self, a, b):
        e = self.get(a)
        if self.get(b) is not None or e is None:
            raise Refused
        for x in self.n:
            if x[2] == e[0]:
                x[2] = b.lower()
        e[0], e[1] = b.lower(), b

    def setp(self, p, c):
        a, b = self.get(p), self.get(c)
        if a is None or b is None or a is b or a[0] in self.desc(c):
            raise Refused
        b[2] = a[0]

    def visible(self):
        return sorted(e[0] for e in self.n if self.scope == "dictionary" or e[2] is None)

    def state(self):
        return (self.scope, [tuple(e) for e in self.n])


def all_ops(tree):
    o = []
    for n in NAMES + ["X"]:
        o.append(("new", n, None))
        o.append(("del", n))
    if tree:
        for n in NAMES + ["Y"]:
            for p in NAMES + ["X"]:
                o.append(("new", n, p))
        o.append(("new", "z", "nosuch"))
        for p in NAMES + ["Y"]:
            for c in NAMES:
                o.append(("setp", p, c))
        o += [("setp", "nosuch", "x"), ("setp", "x", "nosuch"), ("scope", "dictionary"), ("scope", "instance")]
    for a in NAMES + ["Y"]:
        for b in NAMES + ["X"]:
            o.append(("rename", a, b))
    o += [("rename", "x", "w"), ("rename", "y", "W"), ("del", "w"), ("rename", "nosuch", "w"), ("copy",), ("rebuild",), ("clear",), ("update", ("w",)), ("update", ("y", "X"))]
    return o


def build_block(CifFile, token):
    b = CifFile.CifBlock()
    b["_content"] = token
    return b


KINDS = {"CifFile": ("instance", False), "CifFile-dictionary": ("dictionary", False), "StarFile-None": ("instance", True), "BlockCollection": ("instance", False)}


def make(CifFile, kind):
    from CifFile import StarFile as S
    sc, rep = KINDS[kind]
    if kind.startswith("CifFile"):
        return CifFile.CifFile(scoping=sc), Model(sc, rep)
    if kind.startswith("StarFile"):
        return S.StarFile(standard=None, blocktype=CifFile.CifBlock), Model(sc, rep)
    return S.BlockCollection(blocktype=CifFile.CifBlock), Model(sc, rep)


def apply_model(m, op):
    k, a = op[0], op[1:]
    if k == "new":
        m.new(*a)
    elif k == "del":
        m.rm(*a)
    elif k == "rename":
        m.rename(*a)
    elif k == "setp":
        m.setp(*a)
    elif k == "scope":
        m.scope = a[0]
    elif k == "clear":
        m.n = []
    elif k == "update":
        for n in a[0]:
            m.new(n, None)
    elif k == "rebuild":
        m.scope = KINDS[m.kind][0]


def apply_real(CifFile, f, op, kind):
    k, a = op[0], op[1:]
    if k == "new":
        if a[1] is None:
            f[a[0]] = build_block(CifFile, a[0])
        else:
            f.NewBlock(a[0], build_block(CifFile, a[0]), parent=a[1])
    elif k == "del":
        del f[a[0]]
    elif k == "rename":
        f.rename(*a)
    elif k == "setp":
        f.set_parent(*a)
    elif k == "scope":
        f.scoping = a[0]
    elif k == "clear":
        f.clear()
    elif k == "update":
        f.update({n: build_block(CifFile, n) for n in a[0]})
    elif k == "copy":
        g = f.copy()
        # the copy must not depend on the original
        for n in list(f.keys()):
            if n in f:
                f[n]["_content"] = "changed"
                del f[n]
        return g
    elif k == "rebuild":
        sc = KINDS[kind][0]
        if kind.startswith("CifFile"):
            return CifFile.CifFile(f, scoping=sc)
        from CifFile import StarFile as S
        if kind.startswith("StarFile"):
            return S.StarFile(f, standard=None, blocktype=CifFile.CifBlock)
        return S.BlockCollection(f, blocktype=CifFile.CifBlock)
    return f


def outline(text):
    """nested (kind, name, content) outline of written text"""
    root, stack = [], []
    cur = root
    for l in text.splitlines():
        w = l.split()
        if not w or w[0].startswith("#"):
            continue
        if w[0].startswith("data_"):
            node = ["data", w[0][5:], [], None]
            root.append(node)
            stack = [node]
        elif w[0] == "save_":
            stack.pop()
        elif w[0].startswith("save_"):
            node = ["save", w[0][5:], [], None]
            stack[-1][2].append(node)
            stack.append(node)
        elif w[0] == "_content":
            check(stack[-1][3] is None, "content-twice", lambda: text)
            stack[-1][3] = w[1]
    return root


def expected_outline(m, nested, order=None):
    nodes = m.n if order is None else [m.get(o) for o in order]

    def kids(e, deep):
        if deep:
            return [["save", c[1], kids(c, True), c[3]] for c in m.n if c[2] == e[0]]
        d = set(m.desc(e[0]))
        return [["save", c[1], [], c[3]] for c in nodes if c[0] in d]
    return [["data", e[1], kids(e, nested), e[3]] for e in nodes if e[2] is None]


def ref_children(m, name, incl):
    d = set(m.desc(name))
    sub = Model("dictionary", False)
    for e in m.n:
        if e[0] in d or (incl and e[0] == name):
            p = e[2]
            if e[0] == name or (p == name and not incl):
                p = None
            sub.n.append([e[0], e[1], p, e[3]])
    return sub


def observe(f, m, deep=True, names=tuple(NAMES) + ("w",)):
    vis = m.visible()
    check(sorted(f.keys()) == vis and len(f) == len(vis), "keys", lambda: "keys %r, expected %r" % (sorted(f.keys()), vis))
    check(sorted((k, b["_content"]) for k, b in f.items()) == sorted((e[0], e[3]) for e in m.n if e[0] in vis), "items", lambda: "items %r" % (f.items(),))
    check(sorted(b["_content"] for b in f) == sorted(e[3] for e in m.n if e[0] in vis), "iteration", lambda: "iteration")
    fb = f.first_block()
    check((fb is None) == (not vis) and (fb is None or any(fb is f[k] for k in vis)), "first-block", lambda: "%r" % fb)
    for nm in names:
        e = m.get(nm)
        for sp in (nm, nm.upper()):
            v = nm in vis
            check((sp in f) == v and f.has_key(sp) == v and (f.get(sp) is not None) == v, "membership", lambda: "%s in file: %r, expected %r" % (sp, sp in f, v))
            if e is None:
                for fn in (lambda: f[sp], lambda: f.get_parent(sp)):
                    try:
                        fn()
                    except (KeyError, ERR):
                        continue
                    check(False, "absent-found", lambda: "%s is found" % sp)
                continue
            check(f[sp]["_content"] == e[3], "contents", lambda: "%s holds %r, expected %r" % (sp, f[sp]["_content"], e[3]))
            check(f.get_parent(sp) == e[2], "parent", lambda: "parent of %s is %r, expected %r" % (sp, f.get_parent(sp), e[2]))
            imm = [(c[0], c[1], c[2]) for c in m.n if c[2] == e[0]]
            got = [(k, i.block_id, i.parent) for k, i in f.get_immediate_children(sp)]
            check(sorted(got) == sorted(imm), "children", lambda: "children of %s: %r, expected %r" % (sp, got, imm))
            check(f.get_child_list(sp) == sorted(m.desc(nm)), "child-list", lambda: "descendants of %s: %r, expected %r" % (sp, f.get_child_list(sp), sorted(m.desc(nm))))
            for o in list(names[:-1]) + [names[-1].upper()]:
                check(f.is_child_of_parent(sp, o) == (o.lower() in m.desc(nm)), "is-child", lambda: "is_child_of_parent(%s,%s)" % (sp, o))
    roots = sorted((k, i.block_id, i.parent) for k, i in f.get_roots())
    check(roots == sorted((e[0], e[1], None) for e in m.n if e[2] is None), "roots", lambda: "roots %r" % roots)
    vals = []
    for e in m.n:
        if e[0] in vis and e[3] not in vals:
            vals.append(e[3])
    check(sorted(f.get_all("_content")) == sorted(vals), "get-all", lambda: "%r" % f.get_all("_content"))
    if not deep:
        return
    for g in ("1.1", "2.0", "STAR2"):
        f.set_grammar(g)
        t = f.WriteOut()
        check(outline(t) == expected_outline(m, g == "STAR2"), "output", lambda: "grammar %s writes %r, expected %r" % (g, outline(t), expected_outline(m, g == "STAR2")))
    f.set_grammar("2.0")
    order = [e[1] for e in m.n][::-1]
    t = f.WriteOut(blockorder=order)
    check(outline(t) == expected_outline(m, False, order), "output-order", lambda: "blockorder %r writes %r" % (order, outline(t)))
    for e in m.n:
        for incl in (False, True):
            sub = f.get_children(e[1], include_parent=incl)
            rm = ref_children(m, e[0], incl)
            observe(sub, rm, False, names)
            sub.set_grammar("STAR2")
            check(outline(sub.WriteOut()) == expected_outline(rm, True), "children-output", lambda: "%r instead of %r" % (outline(sub.WriteOut()), expected_outline(rm, True)))
    for sel in ([e[1] for e in m.n[::2]], [e[1] for e in m.n[1:]], [e[0] for e in m.n] + ["nosuch"]):
        sub = f.makebc(sel)
        keep = [s.lower() for s in sel if m.get(s)]
        rm = Model("dictionary", False)
        for k in keep:
            e = m.get(k)
            rm.n.append([e[0], e[1], e[2] if e[2] in keep else None, e[3]])
        observe(sub, rm, False, names)
        sub.set_grammar("1.1")
        check(outline(sub.WriteOut()) == expected_outline(rm, False), "makebc-output", lambda: "%r" % outline(sub.WriteOut()))
    f.set_grammar("2.0")


ERR = None


def make_run(CifFile):
    global ERR
    from CifFile import StarError
    ERR = StarError

    def run(hist, st):
        kind = hist[0]
        f, m = make(CifFile, kind)
        m.kind = kind
        for i, op in enumerate(hist[1:]):
            last = i == len(hist) - 2
            apply_now = True
            try:
                apply_model(m, op)
                refused = False
            except Refused:
                if op[0] == "update":
                    raise Skip
                refused = True
            try:
                f = apply_real(CifFile, f, op, kind)
                failed = None
            except (KeyError, ValueError, StarError) as e:
                failed = e
            if last:
                check(refused == (failed is not None), "refusal", lambda: "%r %s" % (op, "failed: %r" % failed if failed is not None else "was not refused"))
                st["refused"] += refused
        observe(f, m)
        return repr((kind, m.state())), None
    return run


def run(ctx):
    import CifFile
    ctx.level = "model_checking"
    ctx.rule = ("breadth-first search over all sequences of adding, replacing, deleting, renaming, re-parenting, copying and rebuilding blocks and frames with "
                "three names in two spellings; after each operation every lookup, listing, family query, sub-collection and written outline is compared with a reference tree")
    ctx.assumptions = ["a frame and a data block of one collection do not share a name (the library then changes a key by design)",
                       "order of keys() is not specified; output order is"]
    for kind in KINDS:
        tree = True
        ops = all_ops(tree)
        if kind in ("BlockCollection",):
            ops = [o for o in ops if o[0] != "update"]
        d = {"CifFile": 4, "CifFile-dictionary": 3, "StarFile-None": 3, "BlockCollection": 2}[kind] + (0 if ctx.quick else 2)
        ctx.bfs(kind, [(kind,)], lambda h, info, ops=ops: ops, make_run(CifFile), d, 300000)

    # every family tree of four (thorough: five) blocks, and every single operation on it
    FN = ["p", "q", "r", "s", "t", "u"]

    def forests(n):
        for par in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
            yield par

    def fops(n, kind):
        yield None
        ns = FN[:n]
        for a in ns:
            yield ("del", a)
            yield ("rename", a, "W")
            yield ("new", a.upper(), None)
            for b in ns:
                yield ("setp", a, b.upper())
                yield ("new", a, b)
                if a == b:
                    yield ("rename", a, b)
        yield ("copy",)
        yield ("rebuild",)
        yield ("scope", "dictionary")
        yield ("scope", "instance")

    def g_family():
        for kind in ("CifFile", "StarFile-None", "CifFile-dictionary"):
            for n in (4, 5) if ctx.quick else (4, 5, 6):
                if n == 5 and ctx.quick and kind != "CifFile":
                    continue
                for par in forests(n):
                    if n == 5 and ctx.quick and len([p for p in par if p is None]) > 2:
                        continue
                    for op in fops(n, kind):
                        if n == 5 and ctx.quick and op is not None and op[0] in ("new", "copy", "rebuild", "scope"):
                            continue
                        yield (kind, par, op)

    def f_family(case, st):
        kind, par, op = case
        f, m = make(CifFile, kind)
        m.kind = kind
        names = tuple(FN[:len(par)]) + ("w",)
        ops = [("new", FN[i], None if p is None else FN[p]) for i, p in enumerate(par)]
        if op is not None:
            ops.append(op)
        for i, o in enumerate(ops):
            try:
                apply_model(m, o)
                refused = False
            except Refused:
                refused = True
            try:
                f = apply_real(CifFile, f, o, kind)
                failed = None
            except (KeyError, ValueError, ERR) as e:
                failed = e
            check(refused == (failed is not None), "refusal", lambda: "%r %s" % (o, "failed: %r" % failed if failed is not None else "was not refused"))
        observe(f, m, True, names)
    make_run(CifFile)
    ctx.explore("families", g_family, f_family)
