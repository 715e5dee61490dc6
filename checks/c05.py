"""C05: edits of a data block against a case-insensitive ordered map with loops."""
import re
from mc.core import check, Skip, canon, short

V, VW, L1, L2, M2 = "v", "vw", ["1"], ["2", "3"], ["4", "55"]


class Refused(Exception):
    pass


class Model:
    def __init__(self):
        self.val, self.case, self.order = {}, {}, []    # order: names and loops (lists)

    def loop(self, n):
        for e in self.order:
            if isinstance(e, list) and n.lower() in e:
                return e
        return None

    def set(self, n, v):
        k = n.lower()
        if k not in self.val:
            self.order.append(k)
        self.val[k] = v if isinstance(v, str) else list(v)
        self.case[k] = n

    def detach(self, k):
        for e in list(self.order):
            if isinstance(e, list) and k in e:
                e.remove(k)
                if not e:
                    self.order = [x for x in self.order if x is not e]
            elif e == k:
                self.order.remove(k)

    def rm(self, n):
        k = n.lower()
        if k in self.val:
            del self.val[k], self.case[k]
            self.detach(k)

    def create(self, names, order):
        ks = [n.lower() for n in names]
        if len(set(ks)) < len(ks):
            raise Refused
        if any(k not in self.val for k in ks):
            raise Refused
        kinds = [isinstance(self.val[k], list) for k in ks]
        if any(kinds) and (not all(kinds) or len(set(len(self.val[k]) for k in ks)) > 1):
            raise Refused
        for n, k in zip(names, ks):
            if not isinstance(self.val[k], list):
                self.val[k] = [self.val[k]]
                self.case[k] = (self.case[k], n)      # either spelling
        for k in ks:
            self.detach(k)
        self.order.insert(order if order >= 0 else len(self.order), list(ks))

    def addname(self, old, new):
        lp, k = self.loop(old), new.lower()
        if lp is None:
            raise Refused
        if k in lp:
            return
        if k not in self.val:
            raise Refused
        v = self.val[k] if isinstance(self.val[k], list) else [self.val[k]]
        if len(v) != len(self.val[old.lower()]):
            raise Refused
        self.val[k] = v
        self.detach(k)
        lp.append(k)

    def colset(self, old, new, v):
        lp, k = self.loop(old), new.lower()
        if lp is None:
            raise Refused
        if k in lp:
            self.set(new, v)
            return
        if len(v) != len(self.val[lp[0]]):
            raise Refused
        self.set(new, v)
        self.detach(k)
        lp.append(k)

    def addto(self, old, d):
        lp = self.loop(old)
        if lp is None:
            raise Refused
        for n, v in d:
            if n.lower() not in lp and len(v) != len(self.val[old.lower()]):
                raise Refused
        for n, v in d:
            if n.lower() in lp:
                self.set(n, v)
        for n, v in d:
            if n.lower() not in lp:
                self.set(n, v)
                self.detach(n.lower())
                lp.append(n.lower())

    def addloopitem(self, names, vals):
        if isinstance(names, str):
            self.set(names, vals)
            return
        if len(names) != len(vals) or len(set(len(v) for v in vals)) > 1 or len(set(n.lower() for n in names)) < len(names):
            raise Refused
        for n, v in zip(names, vals):
            self.set(n, v)
        self.create(names, -1)

    def move(self, n, pos):
        k = n.lower()
        if k not in self.val:
            raise Refused
        lp = self.loop(k)
        t = self.order if lp is None else lp
        t.remove(k)
        t.insert(pos, k)

    def loopmove(self, n, pos):
        lp = self.loop(n)
        if lp is None:
            raise Refused
        i = [x is lp for x in self.order].index(True)
        self.order.pop(i)
        self.order.insert(pos, lp)

    def inner(self, a, n, pos):
        lp = self.loop(a)
        if lp is None or n.lower() not in lp:
            raise Refused
        lp.remove(n.lower())
        lp.insert(pos, n.lower())

    def update(self, d):
        for n, v in d:
            self.set(n, v)

    def clear(self):
        self.__init__()

    def state(self):
        return (sorted((k, tuple(v) if isinstance(v, list) else v, self.case[k]) for k, v in self.val.items()),
                [tuple(e) if isinstance(e, list) else e for e in self.order])


NAMES = ["_a", "_b", "_c"]


def all_ops():
    o = []
    for n in NAMES + ["_A"]:
        o += [("set", n, v) for v in (V, L1, L2)]
        o.append(("del", n))
    o += [("set", "_b", VW), ("set", "_B", M2), ("del", "_B")]
    for names in [("_a",), ("_b",), ("_c",), ("_a", "_b"), ("_b", "_a"), ("_A", "_c"), ("_a", "_b", "_c"), ("_c", "_B"), ("_a", "_A"), ("_b", "_zz")]:
        o += [("create", names, p) for p in (-1, 0, 1)]
    o.append(("create", ("_a", "_b"), 2))
    for a in NAMES:
        o += [("addname", a, b) for b in NAMES if a != b]
    o += [("addname", "_A", "_B"), ("addname", "_b", "_A"), ("addname", "_a", "_zz"), ("addname", "_zz", "_a")]
    for a in ("_a", "_b"):
        for b in NAMES + ["_A"]:
            o += [("colset", a, b, L1), ("colset", a, b, M2)]
    o += [("addto", "_a", (("_b", L1), ("_c", L1))), ("addto", "_a", (("_c", L2), ("_b", M2))), ("addto", "_b", (("_c", L2), ("_a", L1))), ("addto", "_B", (("_A", L2),))]
    o += [("addloopitem", "_a", V), ("addloopitem", ("_a", "_b"), (L2, M2)), ("addloopitem", ("_c", "_a"), (L1, L2)), ("addloopitem", ("_A", "_c"), (L1, L1)), ("addloopitem", ("_a", "_b"), (L1,))]
    for n in NAMES + ["_A"]:
        o += [("move", n, p) for p in (0, 1, 2)]
    o += [("loopmove", n, p) for n in ("_a", "_b", "_C") for p in (0, 1)]
    o += [("inner", "_a", n, p) for n in ("_a", "_B", "_c") for p in (0, 1)]
    o += [("update", (("_a", V), ("_B", VW))), ("update", (("_c", L2), ("_a", M2))), ("clear",)]
    return o


INIT = {"empty": [], "items": [("set", "_a", V), ("set", "_B", VW), ("set", "_c", L2)],
        "loop": [("set", "_A", L2), ("set", "_b", M2), ("create", ("_A", "_b"), -1), ("set", "_c", V)],
        "two": [("set", "_c", L1), ("set", "_b", L1), ("set", "_a", L1), ("create", ("_c",), -1), ("create", ("_a", "_b"), -1)]}


def apply_real(b, op):
    k, a = op[0], op[1:]
    if k == "set":
        b[a[0]] = a[1]
    elif k == "del":
        del b[a[0]]
    elif k == "create":
        b.CreateLoop(list(a[0]), order=a[1])
    elif k == "addname":
        b.AddLoopName(*a)
    elif k == "colset":
        b.GetLoop(a[0])[a[1]] = list(a[2])
    elif k == "addto":
        b.AddToLoop(a[0], dict(a[1]))
    elif k == "addloopitem":
        b.AddLoopItem((a[0], a[1]))
    elif k == "move":
        b.ChangeItemOrder(*a)
    elif k == "loopmove":
        n = b.FindLoop(a[0])
        if n < 0:
            raise KeyError(a[0])
        b.ChangeItemOrder(n, a[1])
    elif k == "inner":
        b.GetLoop(a[0]).ChangeItemOrder(a[1], a[2])
    elif k == "update":
        b.update(dict(a[0]))
    elif k == "clear":
        b.clear()


def apply_model(m, op):
    k = op[0]
    {"set": m.set, "del": m.rm, "create": m.create, "addname": m.addname, "colset": m.colset, "addto": m.addto, "addloopitem": m.addloopitem,
     "move": m.move, "loopmove": m.loopmove, "inner": m.inner, "update": m.update, "clear": m.clear}[k](*op[1:])


def legal(m, op):
    """operations outside the property's domain: plain values assigned to loop columns"""
    def plain(n, v):
        return m.loop(n) is not None and isinstance(v, str)
    if op[0] in ("set", "addloopitem") and isinstance(op[1], str):
        return not plain(op[1], op[2])
    if op[0] == "update":
        return not any(plain(n, v) for n, v in op[1])
    if op[0] == "create" and any("_zz" == n for n in op[1]) and len(set(x.lower() for x in op[1])) < len(op[1]):
        return False
    return True


def build(cls, hist):
    b, m = cls(), Model()
    for op in INIT[hist[0]]:
        apply_real(b, op)
        apply_model(m, op)
    return b, m


def snapshot(b):
    ks = sorted(b.keys())
    loops = {}
    for k in ks:
        n = b.FindLoop(k)
        if n >= 0:
            loops.setdefault(n, None)
    order = []
    for e in b.GetItemOrder():
        if isinstance(e, int):
            mem = [k for k in ks if b.FindLoop(k) == e]
            order.append(tuple(b.GetLoop(mem[0]).GetItemOrder()) if mem else ("?", e))
        else:
            order.append(e)
    return [(k, b.GetItemValue(k)) for k in ks], order


def observe(b, m, full):
    ks = sorted(m.val)
    check(sorted(b.keys()) == ks and len(b) == len(ks), "keys", lambda: "keys %r, expected %r" % (b.keys(), ks))
    for k in ks:
        want = m.val[k]
        for sp in (k, k.upper()):
            check(sp in b and b.has_key(sp) and b[sp] == want and b.get(sp) == want and b.GetItemValue(sp) == want, "value",
                  lambda: "%s is %r, expected %r" % (sp, b.get(sp), want))
        check(type(b[k]) is type(want), "value-type", lambda: "%s is a %s" % (k, type(b[k])))
        lp = m.loop(k)
        n = b.FindLoop(k.upper())
        check((n >= 0) == (lp is not None), "loop-membership", lambda: "FindLoop(%s) = %r, expected loop %r" % (k, n, lp))
        if lp is None:
            for f in (b.GetLoop, b.GetLoopNames):
                try:
                    f(k)
                except KeyError:
                    continue
                check(False, "loop-of-unlooped", lambda: "%s(%r) succeeded" % (f.__name__, k))
        else:
            L = b.GetLoop(k)
            check(list(L.keys()) == lp and list(b.GetLoopNames(k.upper())) == lp and L.GetItemOrder() == lp, "loop-names",
                  lambda: "loop of %s is %r, expected %r" % (k, list(L.keys()), lp))
            check(L.values() == [m.val[x] for x in lp] and L[k.upper()] == want and k.upper() in L and L.has_key(k) and "_zz" not in L, "loop-values", lambda: "loop of %s" % k)
            check([f for f in lp if b.FindLoop(f) != n] == [], "loop-numbers", lambda: "loop members have different numbers")
            pos = (n, lp.index(k))
            check(b.GetItemPosition(k.upper()) == pos, "position", lambda: "position of %s is %r" % (k, b.GetItemPosition(k)))
    for k in NAMES:
        if k not in m.val:
            check(k not in b and not b.has_key(k.upper()) and b.get(k) is None and b.FindLoop(k) == -1, "absent", lambda: "%s is still there" % k)
            try:
                b[k]
            except KeyError:
                continue
            check(False, "absent-get", lambda: "b[%r] succeeded" % k)
    items, order = snapshot(b)
    want = [tuple(e) if isinstance(e, list) else e for e in m.order]
    check(order == want, "order", lambda: "order %r, expected %r" % (order, want))
    check(sorted(map(repr, b.items())) == sorted(repr((k, m.val[k])) for k in ks) and sorted(map(repr, b.values())) == sorted(repr(m.val[k]) for k in ks), "items", lambda: "items() %r" % (b.items(),))
    # spelling and order in the output
    text = str(b)
    flat = []
    for e in m.order:
        flat += e if isinstance(e, list) else [e]
    got = re.findall(r"(?m)^\s*(_\S+)", text)
    check([g.lower() for g in got] == flat, "output-order", lambda: "output lists %r, expected %r" % (got, flat))
    for g in got:
        c = m.case[g.lower()]
        check(g in c if isinstance(c, tuple) else g == c, "output-spelling", lambda: "output spells %s, expected %s" % (g, c))
        m.case[g.lower()] = g
    check(text.count("loop_") == sum(isinstance(e, list) for e in m.order), "output-loops", lambda: text)
    # order numbers
    for i, e in enumerate(b.GetItemOrder()):
        check(b.GetItemPosition(e) == (-1, i), "position-top", lambda: "position of %r is %r" % (e, b.GetItemPosition(e)))


def make_run(cls):
    def run(hist, st):
        b, m = build(cls, hist)
        if len(hist) == 1:
            observe(b, m, True)
        for i, op in enumerate(hist[1:]):
            last = i == len(hist) - 2
            if last and not legal(m, op):
                raise Skip
            before = snapshot(b) if last else None
            try:
                apply_model(m, op)
                refused = False
            except Refused:
                refused = True
            try:
                apply_real(b, op)
                failed = None
            except (KeyError, ValueError) as e:
                failed = e
            except Exception as e:
                if type(e).__name__ not in ("StarError", "StarLengthError"):
                    check(False, "exception", lambda: "%r raised %s: %s" % (op, type(e).__name__, e))
                failed = e
            if last:
                check(refused == (failed is not None), "refusal", lambda: "%r %s" % (op, "failed: %r" % failed if failed is not None else "was not refused"))
                if refused:
                    st["refused"] += 1
                    check(snapshot(b) == before, "refused-but-changed", lambda: "%r failed but changed %s to %s" % (op, short(before), short(snapshot(b))))
            # settle the spelling left open by CreateLoop on single values
            for k, c in m.case.items():
                if isinstance(c, tuple):
                    m.case[k] = b.true_case[k] if hasattr(b, "true_case") and b.true_case.get(k) in c else c[0]
            if last:
                observe(b, m, True)
        return repr(m.state()), None
    return run


def run(ctx):
    import CifFile
    from CifFile.StarFile import StarBlock
    ctx.level = "model_checking"
    ctx.rule = ("breadth-first search over all operation sequences from four starting blocks; every (state, operation) pair is executed on the real "
                "block and on a reference map with loops, and every observer is compared; a state is (items with spelling, loops, order)")
    ctx.assumptions = ["plain values are not assigned to loop columns; a whole-column assignment may change the column's length (the library's documented way of replacing a loop column by column)",
                       "loops are not created from an empty list of names"]
    ops = all_ops()
    for nm, cls in (("CifBlock", CifFile.CifBlock), ("StarBlock", StarBlock)):
        d = (4 if nm == "CifBlock" else 2) if ctx.quick else (5 if nm == "CifBlock" else 4)
        ctx.bfs(nm, [(k,) for k in INIT], lambda h, info: ops, make_run(cls), d, 400000)
