"""C23: values derived through a dictionary are right, complete, and independent of what was asked before."""
import io, itertools, sys, math
from mc.core import check, Skip, short
from checks.dicbuild import *

_dics = {}


def cached(text):
    if text not in _dics:
        if len(_dics) > 40:
            _dics.clear()
        _dics[text] = load(text)
    return _dics[text]


def raw(b):
    """the stored contents, loops included, without derivation"""
    return ({k: repr(b.block[k]) for k in b.block}, sorted(sorted(l) for l in b.loops.values()))


class Fail(Exception):
    pass


class Rec(Exception):
    pass


def get(b, k):
    """('ok', value) or ('no', error class)"""
    try:
        return "ok", b[k]
    except KeyError:
        return "no", "KeyError"


def num(v):
    if isinstance(v, str):
        return float(v)
    return v


def close(a, b):
    if isinstance(b, (list, tuple)):
        return hasattr(a, "__len__") and not isinstance(a, str) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(b, str):
        return a == b
    try:
        return abs(float(a) - float(b)) <= 1e-9 * max(1, abs(b))
    except (TypeError, ValueError):
        return False


# ---------------------------------------------------------------- dependency graphs
class Ref:
    """the documented derivation rules on Set items: each item is (methods, default), a method is (refs, const)"""

    def __init__(self, defs, state):
        self.defs, self.state, self.stack = defs, dict(state), []

    def val(self, x, phase):
        s = self.state.get(x)
        if s is not None and s != "?":
            return s
        if s == "?":
            saved = dict(self.state)
            del self.state[x]
            try:
                return self.derive(x, phase)
            except (Fail, Rec):
                self.state = saved
                raise
        return self.derive(x, phase)

    def derive(self, x, phase):
        if x in self.stack:
            raise Rec()
        self.stack.append(x)
        try:
            meths, default = self.defs[x]
            for refs, const in meths:
                try:
                    v = const + sum(self.val(r, phase) for r in refs)
                    break
                except (Fail, Rec):
                    pass
            else:
                if not phase or default is None:
                    raise Fail()
                v = default
            self.state[x] = v
            return v
        finally:
            self.stack.pop()

    def ask(self, x, pv):
        s = self.state.get(x)
        if s is not None and (s != "?" or not pv):
            return s
        for phase in (0, 1):
            saved = dict(self.state)
            try:
                return self.val(x, phase)
            except Fail:
                if s == "?":
                    self.state = saved
        return s   # None: no such item


def graph_kinds(i, n):
    o = [x for x in range(n) if x != i]
    out = [((), None), ((), 50.0 + i), ((((), 7.0),), None)]
    for x in o:
        out.append(((((x,), 1.0),), None))
        out.append(((((x,), 1.0),), 50.0 + i))
    out.append(((((o[0], o[1]), 2.0),), None))
    out.append(((((o[0], o[1]), 2.0),), 50.0 + i))
    for x, y in (o[:2], o[1::-1]):
        out.append(((((x,), 10.0), ((y,), 20.0)), None))
    return out


def canon_graph(g, n):
    """is g the least of its renamings?"""
    best = repr(g)
    for p in itertools.permutations(range(n)):
        q = [None] * n
        for i in range(n):
            m, d = g[i]
            q[p[i]] = (tuple((tuple(p[r] for r in refs), c) for refs, c in m), None if d is None else 50.0 + p[i])
        # sums do not depend on the order of their terms
        q = tuple((tuple((tuple(sorted(r)), c) for r, c in m), d) for m, d in q)
        if repr(q) < best:
            return False
    return True


def graph_text(g):
    s = cat("s")
    for i, (m, d) in enumerate(g):
        s += item("s", "abcd"[i], meth=["_s.%s = %s" % ("abcd"[i], " + ".join(["%s" % c] + ["_s." + "abcd"[r] for r in refs])) for refs, c in m],
                  default=d)
    return s


def acyclic_single(g):
    if any(len(m) > 1 for m, d in g):
        return False
    seen = {}

    def ok(i, path):
        if i in path:
            return False
        return all(ok(r, path + (i,)) for m in g[i][0] for r in m[0])
    return all(ok(i, ()) for i in range(len(g)))


def run(ctx):
    ctx.rule = ('a case is (dictionary, data block, order of requests): all dependency graphs, methods, row arrangements and request orders up to the bound; every derived value, every refusal and the whole block afterwards are compared with a reference')
    import CifFile

    def g_graph():
        n = 3
        for g in itertools.product(*[graph_kinds(i, n) for i in range(n)]):
            if canon_graph(g, n):
                yield g

    def f_graph(g, st):
        n = len(g)
        d = load(graph_text(g))
        names = ["_s." + "abcd"[i] for i in range(n)]
        for present in itertools.product(*[(None, 3.0 + i, "?") for i in range(n)]):
            q = "?" in present
            for pv in ((True, False) if q else (False,)):
                finals = {}
                for order in itertools.permutations(range(n)):
                    b = block("".join("%s %s\n" % (nm, v) for nm, v in zip(names, present) if v is not None) or "_s.zz 1", d)
                    b.provide_value = pv
                    start = dict(b.block)
                    R = Ref(g, {i: v for i, v in enumerate(present) if v is not None})
                    for x in order + order[:1]:
                        want = R.ask(x, pv)
                        kind, got = get(b, names[x])
                        st["requests"] += 1
                        lab = lambda: "dictionary %r with %r asked in order %r (values wanted: %s): %s" % (g, present, order, pv, names[x])
                        if want is None:
                            check(kind == "no", "graph:derived", lambda: "%s gave %r, but it can not be derived" % (lab(), got))
                        else:
                            check(kind == "ok", "graph:underived", lambda: "%s was refused instead of %r" % (lab(), want))
                            check(got == want if want == "?" else got != "?" and close(num(got), want), "graph:value", lambda: "%s gave %r instead of %r" % (lab(), got, want))
                        finals[order, x] = want
                    for k in start:
                        if repr(start[k][0]) != "'?'":
                            check(b.block.get(k) == start[k], "graph:changed", lambda: "dictionary %r with %r asked in order %r: %s is now %r" % (g, present, order, k, b.block.get(k)))
                    for i in range(n):
                        s = R.state.get(i)
                        if s is None:
                            check(names[i] not in b, "graph:extra", lambda: "dictionary %r with %r asked in order %r: %s appeared" % (g, present, order, names[i]))
                        else:
                            check(names[i] in b and close(num(b.GetFullItemValue(names[i])[0]), s) if s != "?" else b.block[names[i]][0] == "?",
                                  "graph:stored", lambda: "dictionary %r with %r asked in order %r: %s is stored as %r instead of %r" % (g, present, order, names[i], b.block.get(names[i]), s))
                    check(len(b.loops) == 0 and sorted(b.item_order) == sorted(b.block), "graph:structure", lambda: "dictionary %r with %r asked in order %r: block left inconsistent" % (g, present, order))
                if acyclic_single(g) and (pv or not q):
                    st["order_independent"] += 1
                    for x in range(n):
                        check(len({repr(v) for (o, y), v in finals.items() if y == x}) == 1, "graph:order",
                              lambda: "dictionary %r with %r: the value of %s depends on the order of requests" % (g, present, names[x]))
    ctx.explore("dependency graphs", g_graph, f_graph)

    # ---------------------------------------------------------------- scenarios
    class Scenario:
        """text: the dictionary.  defs: name -> list of (needed names, function) tried in order.
        loops: category -> (key, columns).  data: list of (text, {name: value as stored})."""

        def __init__(self, label, text, defs, loops, data, asks, alias={}, defaults={}, cats={}, index={}):
            self.__dict__.update(locals())

        def incat(self, data, c):
            return [n for n in data if self.alias.get(n, n).startswith("_" + c + ".")]

        def ref(self, data, name, stack=(), phase=None):
            if phase is None:
                try:
                    return self.ref(data, name, stack, 0)
                except Fail:
                    return self.ref(data, name, stack, 1)
            name = self.alias.get(name, name)
            for n in [name] + [a for a in self.alias if self.alias[a] == name]:
                if n in data:
                    return typed(data[n])
            if name in stack:
                raise Fail()
            c = name[1:].split(".")[0]
            if c in self.cats and not self.incat(data, c):   # no row there yet: the method of the category makes them
                need, fn = self.cats[c]
                cols = fn(*[self.ref(data, n, stack + (name,), phase) for n in need])
                if len(cols.get(name, ())):
                    return cols[name]
                if not any(len(v) for v in cols.values()):
                    raise Fail()
            for need, fn in self.defs.get(name, ()):
                try:
                    vals = [self.ref(data, n, stack + (name,), phase) for n in need]
                except Fail:
                    continue
                return fn(*vals)
            if phase and name in self.index:
                iname, table = self.index[name]
                v = self.ref(data, iname)
                key = lambda x: x.lower() if isinstance(x, str) and not getattr(self, "exact", 0) else x
                if any(key(x) not in table for x in (v if isinstance(v, list) else [v])):
                    raise Fail()
                if isinstance(v, list):
                    return [table[key(x)] for x in v]
                if c in self.loops and not self.incat(data, c):
                    raise Fail()
                return [table[key(v)]] * len(data[self.incat(data, c)[0]]) if c in self.loops else table[key(v)]
            if phase and name in self.defaults:
                if c in self.loops:
                    for n in data:
                        n = self.alias.get(n, n)
                        if n.startswith("_" + c + "."):
                            return [self.defaults[name]] * len(data[n] if n in data else self.ref(data, n))
                    if c in self.cats:
                        need, fn = self.cats[c]
                        rows = [len(v) for v in fn(*[self.ref(data, n) for n in need]).values()]
                        if rows[0]:
                            return [self.defaults[name]] * rows[0]
                    raise Fail()
                return self.defaults[name]
            raise Fail()

    def typed(v):
        if isinstance(v, list):
            return [typed(x) for x in v]
        try:
            return float(v)
        except ValueError:
            return v

    def scen_cases(sc, depth):
        for i in range(len(sc.data)):
            for n in range(1, depth + 1):
                for seq in itertools.permutations(range(len(sc.asks)), n):
                    yield i, seq

    def spelled(name, how):
        return name if how == 0 else name.upper() if how == 1 else name.title()

    def f_scen(sc):
        def f(case, st):
            i, seq = case
            text, data = sc.data[i]
            d = cached(sc.text)
            for how in (0, 1, 2):
                b = block(text, d)
                start = {k: repr(v) for k, v in b.block.items()}
                sloops = [list(l) for l in b.loops.values()]
                for x in seq + seq[:1]:
                    name = sc.asks[x]
                    lab = lambda: "%s: data %r, asked %r, now %s" % (sc.label, text, [sc.asks[s] for s in seq], spelled(name, how))
                    try:
                        want = sc.ref(data, name)
                    except Fail:
                        want = None
                    kind, got = get(b, spelled(name, how))
                    st["requests"] += 1
                    if want is None:
                        check(kind == "no" or isinstance(got, list) and len(got) == 0, "derived", lambda: "%s gave %r, but it can not be derived" % (lab(), got))
                        check(name not in b, "stored-nothing", lambda: "%s: it was stored" % lab())
                    else:
                        check(kind == "ok", "underived", lambda: "%s was refused instead of %r" % (lab(), want))
                        if isinstance(got, list):
                            got = [num(g) if isinstance(w, float) else g for g, w in zip(got, want)] if isinstance(want, list) and len(got) == len(want) else got
                        check(close(got if isinstance(want, str) else num(got) if isinstance(got, str) and not isinstance(want, list) else got, want), "value",
                              lambda: "%s gave %r instead of %r" % (lab(), got, want))
                    for k in start:
                        check(k in b.block and repr(b.block[k]) == start[k], "changed", lambda: "%s: %s changed to %r" % (lab(), k, b.block.get(k)))
                    seen = []
                    for l in b.loops.values():
                        seen += l
                        cats = {sc.alias.get(c, c).split(".")[0] for c in l}
                        check(len(cats) == 1, "loops", lambda: "%s: a loop now holds %r" % (lab(), l))
                        check(len({len(b.block[c][0] or b.block[c][1]) for c in l}) == 1, "loops", lambda: "%s: a loop has columns of different lengths" % lab())
                    check(len(seen) == len(set(seen)), "loops", lambda: "%s: an item is in two loops" % lab())
                    check(len(b.loops) >= len(sloops) and all(any(set(l) <= set(m) for m in b.loops.values()) for l in sloops), "loops", lambda: "%s: loops are now %r" % (lab(), b.loops))
                    for k in b.block:
                        kk = sc.alias.get(k, k)
                        c = kk[1:].split(".")[0]
                        if k not in start:
                            check((k in seen) == (c in sc.loops), "loops", lambda: "%s: %s is stored %s a loop" % (lab(), k, "outside" if k not in seen else "in"))
                            # whatever else was stored must be right too
                            try:
                                w = sc.ref(data, kk)
                            except Fail:
                                w = None
                            v = b.GetFullItemValue(k)[0]
                            check(w is not None and close([num(x) if isinstance(y, float) else x for x, y in zip(v, w)] if isinstance(w, list) and len(v) == len(w) else num(v) if isinstance(w, float) else v, w),
                                  "stored", lambda: "%s: %s is stored as %r instead of %r" % (lab(), k, v, w))
                # and the block can be written and read back
                if how == 0:
                    out = str(b)
                    st["written"] += 1
        return f

    def scen(sc, depth):
        ctx.explore(sc.label, lambda: scen_cases(sc, depth), f_scen(sc))

    # ---- rows of a loop
    S_ROWS = ("_l.y = _l.x * 3", "With p as l\np.y = p.x * 3", "y = 3\n_l.y = _l.x * y", "With l as l\nu = l.x\nl.y = u + u + u",
              "if (_l.x > 2) {\n_l.y = _l.x + 2 * _l.x\n} else _l.y = _l.x * 3", "With p as l\nDo i = 1,3 {\nif (i == 3) p.y = p.x * i\n}", "_l.y = Current_Row() * 0 + 3 * _l.x")
    for n, ytext in enumerate(S_ROWS if not ctx.quick else S_ROWS):
        text = (cat("s") + item("s", "a", default=2) + item("s", "t", meth=["t = 0.0\nLoop p as l {\nt += p.z\n}\n_s.t = t"], alias=["_s_old_t"])
                + item("s", "n", typ="Integer", meth=["n = 0\nLoop p as l {\nn += 1\n}\n_s.n = n"])
                + item("s", "m", meth=["m = 0.0\nLoop p as l :i {\nif (i == 0) m = p.x\nif (p.x > m) m = p.x\n}\n_s.m = m"])
                + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned") + item("l", "x", alias=["_l_old_x"]) + item("l", "y", meth=[ytext])
                + item("l", "z", meth=["_l.z = _l.y + _s.a"]) + item("l", "w", default=9)
                + item("l", "v", typ="Integer", meth=["_l.v = Current_Row()"]) + item("l", "nn", meth=["_l.nn = _l.x + _l.nothing"]) + item("l", "nothing"))
        defs = {"_l.y": [(("_l.x",), lambda x: [3 * a for a in x])], "_l.z": [(("_l.y", "_s.a"), lambda y, a: [b + a for b in y])],
                "_l.v": [(("_l.k",), lambda k: [float(i) for i in range(len(k))])],
                "_s.t": [(("_l.z",), sum)], "_s.n": [(("_l.k",), lambda k: float(len(k)))], "_s.m": [(("_l.x",), max)]}
        data = []
        for rows in (1, 2, 3):
            for cols in (("k", "x"), ("x", "k"), ("k", "y"), ("k", "x", "y"), ("k", "old_x"), ("k", "x", "w")):
                if rows != 2 and (cols != ("k", "x") or n):
                    continue
                if n and cols in (("k", "x", "w"), ("x", "k"), ("k", "x", "y")):
                    continue
                vals = {"k": ["p", "q", "r"], "x": ["4", "-2.5", "1"], "old_x": ["3", "8", "2.5"], "y": ["7", "1.5", "2"], "w": ["1", "5", "3"]}
                nm = {"old_x": "_l_old_x"}
                names = [nm.get(c, "_l." + c) for c in cols]
                for a in (None, "6") if cols == ("k", "x") else (None,):
                    t = ("_s.a %s\n" % a if a else "") + "loop_\n" + "\n".join(names) + "\n" + "\n".join(" ".join(vals[c][i] for c in cols) for i in range(rows))
                    dd = {nn: vals[c][:rows] for nn, c in zip(names, cols)}
                    if a:
                        dd["_s.a"] = a
                    data.append((t, dd))
        data.append(("_s.a 5", {"_s.a": "5"}))
        scen(Scenario("rows of a loop %d" % n, text, defs, {"l": 1}, data,
                      ["_l.y", "_l.z", "_l.w", "_l.v", "_l.nn", "_s.t", "_s.n", "_s.m", "_s.a", "_l.x", "_l_old_x", "_s_old_t"] if not n else ["_l.y", "_l.z", "_s.t", "_l.x"],
                      alias={"_l_old_x": "_l.x", "_s_old_t": "_s.t"}, defaults={"_s.a": 2.0, "_l.w": 9.0}), 2 if ctx.quick else 3)

    # ---- categories made by a method of the category
    def rmain(rows, names=("_r.id", "_r.v"), vals={"_r.id": ["p", "q", "r"], "_r.v": ["1.5", "-2", "4"]}):
        return "loop_\n" + "\n".join(names) + "\n" + "\n".join(" ".join(vals[c][i] for c in names) for i in range(rows)), {c: vals[c][:rows] for c in names}

    RDEF = cat("r", "Loop", ["id"]) + item("r", "id", "Code", "Key", "Assigned") + item("r", "v") + item("r", "y", meth=["_r.y = _r.v * 10"])

    def tdef(meth):
        return (cat("t", "Loop", ["id"], meth=[meth]) + item("t", "id", "Code", "Key") + item("t", "v") + item("t", "u") + item("t", "n", "Integer")
                + item("t", "w", meth=["_t.w = _t.v * 2 + _t.u"]) + item("t", "d", default=3))
    TCOMMON = cat("s") + item("s", "a", default=2) + item("s", "n", meth=["x = 0\nLoop p as t {\nx += p.v + p.u * 100\n}\n_s.n = x"]) + item("s", "f", meth=["_s.f = t['q'].u"])
    PLANS = [
        ("each row", "Loop p as r {\nt(.id = p.id, .v = p.v + 1, .u = p.y * _s.a, .n = 7)\n}", ("_r.id", "_r.v", "_r.y", "_s.a"),
         lambda i, v, y, a: [(x, b + 1, c * a, 7) for x, b, c in zip(i, v, y)]),
        ("numbered", "Loop p as r :i {\nt(.n = i + 1, .u = i, .v = p.v, .id = p.id)\n}", ("_r.id", "_r.v"), lambda i, v: [(x, b, n, n + 1) for n, (x, b) in enumerate(zip(i, v))]),
        ("some rows", "Loop p as r {\nif (p.v > 0) t(.id = p.id, .v = p.v, .u = 0 - p.v, .n = 1)\n}", ("_r.id", "_r.v"), lambda i, v: [(x, b, -b, 1) for x, b in zip(i, v) if b > 0]),
        ("pairs", "Loop p as r {\nLoop q as r {\nif (p.id != q.id) t(.id = p.id + q.id, .v = p.v, .u = q.v, .n = 2)\n}\n}", ("_r.id", "_r.v"),
         lambda i, v: [(a + b, x, y, 2) for a, x in zip(i, v) for b, y in zip(i, v) if a != b]),
        ("two calls", "Loop p as r {\nt(.id = p.id, .v = p.v, .u = 1, .n = 1)\nt(.id = p.id + '_', .v = 0 - p.v, .u = 2, .n = 2)\n}", ("_r.id", "_r.v"),
         lambda i, v: [z for x, b in zip(i, v) for z in ((x, b, 1, 1), (x + "_", -b, 2, 2))]),
        ("counted", "Do i = 1,3 {\nif (i != 2) t(.id = 'q', .v = i, .u = _s.a + i, .n = i)\n}", ("_s.a",), lambda a: [("q", i, a + i, i) for i in (1, 3)]),
    ]
    for pn, meth, need, rowsof in PLANS:
        if pn == "counted":
            common = TCOMMON.replace("_s.f = t['q'].u", "_s.f = _s.nothing") + item("s", "nothing")
        else:
            common = TCOMMON

        def colsof(*args, rowsof=rowsof):
            rr = rowsof(*args)
            return {"_t." + c: [x[k] for x in rr] for k, c in enumerate(("id", "v", "u", "n"))}

        def look(i, u):
            if "q" not in i:
                raise Fail()
            return u[i.index("q")]
        defs = {"_r.y": [(("_r.v",), lambda v: [10 * a for a in v])], "_t.w": [(("_t.v", "_t.u"), lambda v, u: [2 * a + b for a, b in zip(v, u)])],
                "_s.n": [(("_t.v", "_t.u"), lambda v, u: sum(v) + 100 * sum(u))], "_s.f": [(("_t.id", "_t.u"), look)] if pn != "counted" else []}
        data = []
        for rows in (1, 2, 3):
            t, dd = rmain(rows)
            data.append((t, dd))
            if rows == 2:
                data.append((t + "\n_s.a 5", dict(dd, **{"_s.a": "5"})))
                tv = {"_t.id": ["x", "q", "z"], "_t.v": ["5", "6", "7"], "_t.u": ["1", "0", "-1"]}
                for have in (("_t.id",), ("_t.id", "_t.v"), ("_t.id", "_t.v", "_t.u"), ("_t.v", "_t.u")):
                    if pn in ("each row", "counted"):
                        t2, d2 = rmain(3, have, tv)
                        data.append((t + "\n" + t2, dict(dd, **d2)))
        data.append(("_z 1", {"_z": "1"}))
        asks = ["_t.id", "_t.v", "_t.u", "_t.n", "_t.w", "_t.d", "_s.n", "_s.f"]
        scen(Scenario("category made by its method: " + pn, RDEF + tdef(meth) + common, defs, {"r": 1, "t": 1}, data,
                      asks, defaults={"_s.a": 2.0, "_t.d": 3.0}, cats={"t": (need, colsof)}), 2 if ctx.quick or pn == "pairs" else 3)

    # ---- functions of the dictionary, in any order of definition
    FUNCS = (("Twice", "function Twice(x:[Single,Real]) {\nTwice = x * 2\n}"), ("AxB", "function AxB(x:[Single,Real],y:[Single,Real]) {\nz = x * 10\nAxB = z - y\n}"),
             ("both", "function both(x:[Single,Real]) {\nboth = Twice(x) + AxB(x,1)\n}"), ("pick", "function pick(k:[Single,Code]) {\na = r[k]\npick = a.v\n}"),
             ("sumto", "function sumto(n:[Single,Real]) {\nt = 0\nDo i = 1,n {\nt += i\n}\nsumto = t\n}"))
    orders = list(itertools.permutations(range(len(FUNCS))))
    for order in (orders[0], orders[-1]) if ctx.quick else orders[::5]:
        text = (FUNCCAT + "".join(func(*FUNCS[k]) for k in order) + cat("r", "Loop", ["id"]) + item("r", "id", "Code", "Key", "Assigned") + item("r", "v")
                + item("r", "y", meth=["_r.y = Twice(_r.v)"]) + item("r", "w", meth=["_r.w = AxB(_r.y, _r.v)"]) + item("r", "b", meth=["_r.b = both(_r.v) - both(0)"])
                + cat("s") + item("s", "a", meth=["_s.a = Twice(Twice(3)) + sumto(4)"]) + item("s", "c", meth=["x = 5\nz = 1\n_s.c = AxB(z, x) * 100 + z"])
                + item("s", "p", meth=["_s.p = pick('q')"]) + item("s", "t", meth=["t = 0\nLoop p as r {\nt += Twice(p.v) + p.b\n}\n_s.t = t"]))
        both = lambda v: 2 * v + 10 * v - 1
        defs = {"_r.y": [(("_r.v",), lambda v: [2 * a for a in v])], "_r.w": [(("_r.y", "_r.v"), lambda y, v: [10 * a - b for a, b in zip(y, v)])],
                "_r.b": [(("_r.v",), lambda v: [both(a) - both(0) for a in v])], "_s.a": [((), lambda: 22.0)], "_s.c": [((), lambda: 501.0)],
                "_s.p": [(("_r.id", "_r.v"), look)], "_s.t": [(("_r.v", "_r.b"), lambda v, b: 2 * sum(v) + sum(b))]}
        scen(Scenario("functions in the dictionary, order %s" % "".join(map(str, order)), text, defs, {"r": 1}, [rmain(1), rmain(2), rmain(3), ("_z 1", {"_z": "1"})],
                      ["_r.y", "_r.w", "_r.b", "_s.a", "_s.c", "_s.p", "_s.t"], defaults={}), 2 if ctx.quick else 3)

    # ---- defaults looked up by the value of another item
    def table(name, pairs):
        return "_enumeration.def_index_id '%s'\nloop_\n_enumeration_default.index\n_enumeration_default.value\n" % name + "".join("%s %s\n" % p for p in pairs)
    for ityp, pairs, given in (("Code", (("H", 1.5), ("he", 4), ("C", 12)), (("H", "c", "HE"), ("h", "Q", "C"), ("C",))),
                               ("Integer", ((1, 10.5), (20, 30), (3, 0)), (("1", "3", "20"), ("3", "4"), ("20",))),
                               ("Text", (("H", 1.5), ("he", 4)), (("H", "he"), ("h", "H"), ("he",)))):
        text = (cat("a", "Loop", ["id"]) + item("a", "id", "Code", "Key", "Assigned") + item("a", "sym", ityp, "Number" if ityp == "Integer" else "Encode")
                + item("a", "wt", extra=table("_a.sym", pairs)) + item("a", "tot", meth=["_a.tot = _a.wt * 2"]) + item("a", "far", extra=table("_s.sym", pairs))
                + cat("s") + item("s", "sym", ityp, "Number" if ityp == "Integer" else "Encode") + item("s", "wt", extra=table("_s.sym", pairs))
                + item("s", "two", meth=["_s.two = _s.wt + 1"]))
        low = {(k.lower() if ityp == "Code" else float(k) if ityp == "Integer" else k): float(v) for k, v in pairs}

        defs = {"_a.tot": [(("_a.wt",), lambda w: [2 * x for x in w])], "_s.two": [(("_s.wt",), lambda w: w + 1)]}
        data = []
        for g in given:
            t, dd = rmain(len(g), ("_a.id", "_a.sym"), {"_a.id": ["p", "q", "r"], "_a.sym": list(g)})
            for s in (None,) + tuple(given[0][:1]) + tuple(given[1][:2]):
                data.append((t if s is None else t + "\n_s.sym " + s, dd if s is None else dict(dd, **{"_s.sym": s})))
        data.append(("_s.sym " + given[0][0], {"_s.sym": given[0][0]}))
        sc = Scenario("defaults looked up by %s" % ityp, text, defs, {"a": 1}, data, ["_a.wt", "_a.tot", "_s.wt", "_s.two", "_a.far"],
                      index={"_a.wt": ("_a.sym", low), "_a.far": ("_s.sym", low), "_s.wt": ("_s.sym", low)})
        sc.exact = ityp == "Text"
        scen(sc, 2 if ctx.quick else 4)

    # ---- sums over another loop, category names in mixed case
    for cn in ("m", "Mx"):
        for rn in ("r", "Rx"):
            text = (cat(rn, "Loop", ["id"]) + item(rn, "id", "Code", "Key", "Assigned") + item(rn, "v")
                    + item(rn, "sum", meth=["t = 0\nLoop q as %s {\nif (q.r == _%s.id) t += q.x\n}\n_%s.sum = t" % (cn, rn, rn)])
                    + item(rn, "cnt", "Integer", meth=["With p as %s\nt = 0\nLoop q as %s {\nt += 1\n}\np.cnt = t + p.v * 0" % (rn, cn)])
                    + item(rn, "avg", meth=["_%s.avg = _%s.sum / (_%s.cnt + 1)" % (rn, rn, rn)])
                    + cat(cn, "Loop", ["id"]) + item(cn, "id", "Code", "Key", "Assigned") + item(cn, "r", "Code") + item(cn, "x")
                    + item(cn, "z", meth=["_%s.z = %s[_%s.r].sum - _%s.x" % (cn, rn, cn, cn)])
                    + cat("s") + item("s", "t", meth=["t = 0\nLoop p as %s {\nt = t * 10 + p.sum\n}\n_s.t = t" % rn]))
            R, M = "_%s." % rn.lower(), "_%s." % cn.lower()

            def sums(i, r, x):
                return [sum(b for a, b in zip(r, x) if a == k) for k in i]

            def lookup(r, x, i, s):
                if any(k not in i for k in r):
                    raise Fail()
                return [s[i.index(k)] - b for k, b in zip(r, x)]
            defs = {R + "sum": [((R + "id", M + "r", M + "x"), sums)], R + "cnt": [((R + "v", M + "id"), lambda v, i: [len(i)] * len(v))],
                    R + "avg": [((R + "sum", R + "cnt"), lambda s, c: [a / (b + 1) for a, b in zip(s, c)])],
                    M + "z": [((M + "r", M + "x", R + "id", R + "sum"), lookup)], "_s.t": [((R + "sum",), lambda s: sum(a * 10 ** (len(s) - k - 1) for k, a in enumerate(s)))]}
            data = []
            for rows in (1, 2, 3):
                for links in (("p",), ("p", "q", "p"), ("q", "q")) if rows == 2 or (cn, rn) == ("m", "r") else (("p", "p"),):
                    t, dd = rmain(rows, (R + "id", R + "v"), {R + "id": ["p", "q", "r"], R + "v": ["1", "2", "3"]})
                    t2, d2 = rmain(len(links), (M + "id", M + "r", M + "x"), {M + "id": ["i", "j", "k"], M + "r": list(links), M + "x": ["5", "6", "7.5"]})
                    data.append((t + "\n" + t2, dict(dd, **d2)))
            data.append(rmain(2, (R + "id", R + "v"), {R + "id": ["p", "q", "r"], R + "v": ["1", "2", "3"]}))
            scen(Scenario("sums over another loop: %s, %s" % (rn, cn), text, defs, {rn.lower(): 1, cn.lower(): 1}, data, [R + "sum", R + "cnt", R + "avg", M + "z", "_s.t"]), 2 if ctx.quick else 4)

    # ---- loop statements: each program writes down the rows it visits
    LV, MV = [1, 2, 3], [4, 5]

    def inner_loops(outer_idx, other, deep):
        for c in "lm":
            for idx, cmp_ in ((("", ""), (":j", "")) + (((":j", ">"), (":j", "<="), (":j", "=="), (":j", "!="), (":j", "<"), (":j", ">=")) if outer_idx else ())):
                yield (other, c, idx, cmp_)

    def loops(deep):
        for al in "pq":
            for c in "lm":
                for idx in ("", ":i"):
                    yield (al, c, idx, "", "rec")
                    for inn in inner_loops(idx, "q" if al == "p" else "p", deep):
                        yield (al, c, idx, "", inn)
                for jump in ("next", "break"):
                    yield (al, c, "", "", jump)

    def prog_text(seq):
        s = "t = []\n"
        for al, c, idx, cmp_, body in seq:
            s += "Loop %s as %s %s {\n" % (al, c, idx)
            if body in ("next", "break"):
                s += "if (%s.x == 2 || %s.x == 4) %s\n" % (al, al, body)
                s += "t ++= %s.x\n" % al
            elif body == "rec":
                s += "t ++= %s.x\n" % al
                if idx:
                    s += "t ++= i\n"
            else:
                a2, c2, idx2, cmp2 = body
                s += "Loop %s as %s %s {\nt ++= %s.x\nt ++= %s.x\n}\n" % (a2, c2, idx2 + (" %s i" % cmp2 if cmp2 else ""), al, a2)
                s += "t ++= %s.x\n" % al
            s += "}\n"
        return s

    OPS = {">": lambda a, b: a > b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, ">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b}

    def prog_val(seq):
        V = {"l": LV, "m": MV}
        d = []
        for al, c, idx, cmp_, body in seq:
            for i, x in enumerate(V[c]):
                if body in ("next", "break"):
                    if x in (2, 4):
                        if body == "next":
                            continue
                        break
                    d.append(x)
                elif body == "rec":
                    d.append(x)
                    if idx:
                        d.append(i)
                else:
                    a2, c2, idx2, cmp2 = body
                    for j, y in enumerate(V[c2]):
                        if cmp2 and not OPS[cmp2](j, i):
                            continue
                        d += [x, y]
                    d.append(x)
        return d

    def g_loops():
        L = list(loops(False))
        out = [(a,) for a in L]
        simple = [a for a in L if a[4] == "rec" or (len(a[4]) == 4 and a[4][2] == "")]
        out += [(a, b) for a in simple for b in simple]
        if not ctx.quick:
            out += [(a, b) for a in L for b in L if (a, b) not in set(out)]
        seen = 0
        for i in range(0, len(out), 24):
            yield tuple(out[i:i + 24])

    def f_loops(progs, st):
        text = cat("s") + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned") + item("l", "x", "Integer") + \
            cat("m", "Loop", ["k"]) + item("m", "k", "Code", "Key", "Assigned") + item("m", "x", "Integer")
        for n, p in enumerate(progs):
            text += item("s", "r%d" % n, "Integer", meth=[prog_text(p) + "_s.r%d = t" % n], container="List")
        b = block("loop_\n_l.k\n_l.x\na 1\nb 2\nc 3\nloop_\n_m.k\n_m.x\nu 4\nv 5", load(text))
        for n, p in enumerate(progs):
            want = prog_val(p)
            try:
                got = b["_s.r%d" % n]
            except Exception as e:
                check(False, "loop:refused", lambda: "%r raised %r instead of visiting rows %r" % (prog_text(p), e, prog_val(p)))
            st["programs"] += 1
            check(got == want, "loop:value", lambda: "%r gave %r instead of %r" % (prog_text(p), got, want))
    ctx.explore("loop statements", g_loops, f_loops)

    # ---- packets found by key
    VIEWS = (("_m.v = l[_m.r].x", "direct"), ("a = l[_m.r]\n_m.v = a.x", "packet variable"), ("With q as m\na = l[q.r]\nq.v = a.x", "with"),
             ("v = 0\nLoop p as l {\nif (p.k == _m.r) v = p.x\n}\n_m.v = v", "search"))
    for ctype in ("Code", "Text"):
        for vt, vn in VIEWS:
            for pull in ("x", "y", "q"):
                if vn == "search" and (ctype == "Code" or pull == "q"):
                    continue
                text = (cat("s") + item("s", "a", default=2) + item("s", "t", meth=["t = 0.0\nLoop p as m {\nt = t * 10 + p.v\n}\n_s.t = t"])
                        + item("s", "f", meth=["a = l['p']\n_s.f = a.%s" % pull]) + item("s", "g", meth=["_s.g = l['q'].%s" % pull])
                        + cat("l", "Loop", ["k"]) + item("l", "k", ctype, "Key", "Assigned") + item("l", "x") + item("l", "y", meth=["_l.y = _l.x * _s.a"])
                        + cat("lc", "Loop", ["k"], parent="l") + item("lc", "k", ctype, "Link", "Related", extra="_name.linked_item_id '_l.k'\n") + item("lc", "q")
                        + cat("m", "Loop", ["k"]) + item("m", "k", "Code", "Key", "Assigned")
                        + item("m", "r", ctype, "Link", "Related", extra="_name.linked_item_id '_l.k'\n") + item("m", "v", meth=[vt.replace(".x", "." + pull)]))
                fold = (lambda s: s.lower()) if ctype == "Code" else (lambda s: s)

                def view(k, x, r, fold=fold):
                    t = {fold(a): b for a, b in zip(k, x)}
                    if any(fold(a) not in t for a in r):
                        raise Fail()
                    return [t[fold(a)] for a in r]

                src = {"x": "_l.x", "y": "_l.y", "q": "_lc.q"}[pull]
                kk = "_lc.k" if pull == "q" else "_l.k"
                pick = lambda key: (lambda k, x, fold=fold: dict(zip(map(fold, k), x))[fold(key)])
                defs = {"_l.y": [(("_l.x", "_s.a"), lambda x, a: [a * b for b in x])], "_m.v": [((kk, src, "_m.r"), view)],
                        "_s.t": [(("_m.v",), lambda v: int("".join("%d" % 0 for a in ())or 0) + sum(a * 10 ** (len(v) - 1 - i) for i, a in enumerate(v)))],
                        "_s.f": [((kk, src), pick("p"))], "_s.g": [((kk, src), pick("q"))]}
                data = []
                for refs in (("p",), ("q", "p"), ("r", "q", "r"), ("p", "P") if ctype == "Code" else ("p", "p")):
                    for lk in (("p", "q", "r"), ("r", "p", "q"), ("p", "q", "R") if ctype == "Code" else ("q", "r", "p")):
                        lx = ["%d" % (1 + i) for i in range(3)]
                        t = "loop_\n_l.k\n_l.x\n" + "\n".join("%s %s" % z for z in zip(lk, lx)) + "\nloop_\n_m.k\n_m.r\n" + "\n".join("%d %s" % z for z in enumerate(refs))
                        dd = {"_l.k": list(lk), "_l.x": lx, "_m.k": [str(i) for i in range(len(refs))], "_m.r": list(refs)}
                        if pull == "q":
                            t += "\nloop_\n_lc.k\n_lc.q\n" + "\n".join("%s %s" % z for z in zip(lk[::-1], "789"))
                            dd.update({"_lc.k": list(lk[::-1]), "_lc.q": list("789")})
                        data.append((t, dd))
                scen(Scenario("rows found by key: %s, %s, %s" % (vn, pull, ctype), text, defs, {"l": 1, "m": 1, "lc": 1}, data,
                              ["_m.v", "_s.t", "_s.f", "_s.g", src], defaults={"_s.a": 2.0}), 1 if ctx.quick and (ctype == "Text" or vn == "direct") else 2)

    # ---- kinds of derived values: how they are stored, used in further methods, and written out
    M2 = [[1.0, 2.0], [3.0, 4.0]]
    KINDS = [
        ("real", "Single", "Real", None, "2.5", 2.5, [("%s * 2", 5.0, "Real"), ("%s == 2.5", None, "Real")][:1]),
        ("zero", "Single", "Real", None, "0.0", 0.0, [("%s + 1", 1.0, "Real")]),
        ("integer", "Single", "Integer", None, "7", 7, [("%s - 9", -2, "Integer")]),
        ("nothing", "Single", "Integer", None, "0", 0, [("%s * 3", 0, "Integer")]),
        ("text", "Single", "Text", None, "'a B'", "a B", [("%s + 'x'", "a Bx", "Text"), ("Len(%s)", 3, "Integer")]),
        ("no text", "Single", "Text", None, "''", "", [("%s + 'x'", "x", "Text")]),
        ("lines", "Single", "Text", None, "'a\\n;b'", "a\n;b", [("%s + 'x'", "a\n;bx", "Text")]),
        ("code", "Single", "Code", None, "'Ab'", "Ab", [("%s + 'X'", "abX", "Text")]),
        ("list", "List", "Real", "[3]", "[1.0,2.5,-3.0]", [1, 2.5, -3], [("%s[1] * 2", 5.0, "Real"), ("Len(%s)", 3, "Integer")]),
        ("one", "List", "Real", "[1]", "[4.0]", [4], [("%s[0] * 2", 8.0, "Real")]),
        ("any list", "List", "Integer", "[]", "[1,2]", [1, 2], [("%s[1] * 2", 4, "Integer")]),
        ("lists", "List", "Real", "[]", "[[1,2],[3,4],[5]]", [[1, 2], [3, 4], [5]], [("%s[1][0] + Len(%s[2])", 4, "Real")]),
        ("texts", "List", "Text", "[2]", "['a','b c']", ["a", "b c"], [("%s[1] + 'x'", "b cx", "Text")]),
        ("codes", "List", "Code", "[2]", "['A','b']", ["A", "b"], [("%s[0] + %s[1]", "ab", "Text")]),
        ("matrix", "Matrix", "Real", "[2,2]", "Matrix([[1,2],[3,4]])", M2, [("%s[1,0] * 2", 6.0, "Real"), ("(%s * %s)[1,0]", 15.0, "Real"), ("Transpose(%s)", [[1, 3], [2, 4]], "Matrix")]),
        ("small matrix", "Matrix", "Real", "[1,1]", "Matrix([[5]])", [[5.0]], [("%s[0,0] * 2", 10.0, "Real")]),
        ("integers", "Matrix", "Integer", "[2,2]", "Matrix([[1,2],[3,4]])", M2, [("%s[1,1] * 2", 8, "Integer"), ("(%s * %s)[0,1]", 10, "Real")]),
        ("row", "Matrix", "Real", "[3]", "Matrix([1,2,3])", [[1.0, 2.0, 3.0]], [("%s * Matrix([[1,0,0],[0,1,0],[0,0,2]])", [1, 2, 6], "Matrix")]),
        ("table", "Table", "Real", None, "{'a':1.5,'b':2}", {"a": 1.5, "b": 2}, [("%s['b'] * 2", 4, "Real")]),
        ("text table", "Table", "Text", None, "{'a b':'x y','c':''}", {"a b": "x y", "c": ""}, [("%s['c'] + %s['a b']", "x y", "Text")]),
        ("table of lists", "Table", "Real", None, "{'a':[1,2],'b':[3]}", {"a": [1, 2], "b": [3]}, [("%s['a'][1] + %s['b'][0]", 5, "Real")]),
        ("list of tables", "List", "Real", "[]", "[{'a':1},{'a':2}]", [{"a": 1}, {"a": 2}], None),
    ]

    def bare(v):
        """plain values; every number as a float"""
        if hasattr(v, "dtype"):
            v = v.tolist()
        if isinstance(v, dict):
            return {k: bare(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [bare(x) for x in v]
        return float(v) if isinstance(v, (int, float)) else v

    def asnum(v, w):
        """what was read back, with texts turned into numbers where a number is expected"""
        if isinstance(w, dict) and isinstance(v, dict):
            return {k: asnum(x, w.get(k)) for k, x in v.items()}
        if isinstance(w, list) and isinstance(v, (list, tuple)) and len(w) == len(v):
            return [asnum(x, y) for x, y in zip(v, w)]
        try:
            return float(v) if isinstance(w, float) else v
        except (TypeError, ValueError):
            return v

    def g_kinds():
        for k in KINDS:
            uses = k[6] or []
            for where in ("set", "loop"):
                for rows in ((1,) if where == "set" else (1, 2)):
                    names = ["v"] + ["u%d" % i for i in range(len(uses))]
                    for n in (1, 2) if ctx.quick else (1, 2, 3):
                        for seq in itertools.product(names, repeat=n):
                            yield k[0], where, rows, seq

    def f_kinds(case, st):
        import CifFile
        kname, where, rows, seq = case
        k = [x for x in KINDS if x[0] == kname][0]
        uses = k[6] or []
        c = "s" if where == "set" else "l"
        text = cat("s") + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned")
        text += item(c, "v", k[2], container=k[1], dim=k[3], meth=["_%s.v = %s" % (c, k[4])])
        for i, (u, w, ty) in enumerate(uses):
            text += item(c, "u%d" % i, "Real" if ty == "Matrix" else ty, container="Matrix" if ty == "Matrix" else "Single", dim="[2,2]" if ty == "Matrix" else None,
                         meth=["_%s.u%d = %s" % (c, i, u.replace("%s", "_%s.v" % c))])
        d = cached(text)
        b = block("_s.zz 1\nloop_\n_l.k\n" + "\n".join("kl"[:rows]), d)
        vals = {"v": k[5]}
        for i, (u, w, ty) in enumerate(uses):
            vals["u%d" % i] = w
        full = {n: bare(v) if where == "set" else [bare(v)] * rows for n, v in vals.items()}
        for n in seq:
            lab = lambda: "%s derived as %s in a %s, asked %r, now %s" % (k[4], kname, where, seq, n)
            try:
                got = b["_%s.%s" % (c, n)]
            except Exception as e:
                check(False, "kind:refused", lambda: "%s: raised %r" % (lab(), e))
            st["requests"] += 1
            g = bare(got)
            if kname in ("code", "codes") and n == "v":
                low = lambda x: [low(y) for y in x] if isinstance(x, list) else x.lower()
                check(low(g) == low(full[n]), "kind:value", lambda: "%s: gave %r instead of %r" % (lab(), got, full[n]))
            else:
                check(g == full[n], "kind:value", lambda: "%s: gave %r instead of %r" % (lab(), got, full[n]))
        back = CifFile.ReadCif(io.StringIO("#\\#CIF_2.0\ndata_x\n" + str(b)), grammar="2.0")["x"]
        st["written"] += 1
        for n in full:
            nm = "_%s.%s" % (c, n)
            stored = nm in b.block
            check((nm in back) == stored, "kind:written", lambda: "%r after asking %r: %s was %s" % (case, seq, nm, "lost in writing" if stored else "made up"))
            if stored:
                check(asnum(bare(back[nm]), full[n]) == (full[n] if not kname.startswith("code") or n != "v" else asnum(bare(back[nm]), full[n])), "kind:written",
                      lambda: "%r after asking %r: %s was written and read back as %r instead of %r" % (case, seq, nm, back[nm], full[n]))
                check((back.FindLoop(nm) >= 0) == (where == "loop"), "kind:loop", lambda: "%r: %s is %s a loop in the file written" % (case, nm, "not in" if where == "loop" else "in"))
        check(back["_l.k"] == list("kl"[:rows]), "kind:written", lambda: "%r: the key column became %r" % (case, back["_l.k"]))
    ctx.explore("kinds of derived values", g_kinds, f_kinds)
