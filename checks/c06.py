"""C06: row and column views of a loop against a plain table."""
import io, itertools
from mc.core import check, Skip, short


class Refused(Exception):
    pass


# variant -> (columns, key values per column, how it is built)
TEXT = {"_k": ["a", "A", "b"], "_v": ["x", "y"], "_w": ["1", "."]}
NUM = {"_k": [1, 2], "_v": [1.5, 2], "_w": [0, -1]}
MIX = {"_k": ["a", 1], "_v": [1.0, "x"], "_w": ["?", 2]}
CASE = {"_k": "_K", "_v": "_v", "_w": "_W"}
VARIANTS = {}
for n in (1, 2, 3):
    VARIANTS["text%d" % n] = (["_k", "_v", "_w"][:n], TEXT, "code")
    VARIANTS["file%d" % n] = (["_k", "_v", "_w"][:n], TEXT, "file")
VARIANTS["num2"] = (["_k", "_v"], NUM, "code")
VARIANTS["num3"] = (["_k", "_v", "_w"], NUM, "code")
VARIANTS["mix2"] = (["_k", "_v"], MIX, "code")


def make(CifFile, variant):
    cols, vals, how = VARIANTS[variant]
    first = [vals[c][0] for c in cols]
    second = [vals[c][-1] for c in cols]
    rows = [first, second]
    if how == "file":
        t = "data_t\n_pre p\nloop_\n" + "\n".join(CASE[c] for c in cols) + "\n" + "\n".join(" ".join(r) for r in rows) + "\nloop_ _o1 _o2 1 2 3 4\n"
        b = CifFile.ReadCif(io.StringIO(t), grammar="1.1")["t"]
    else:
        b = CifFile.CifBlock()
        b["_pre"] = "p"
        for i, c in enumerate(cols):
            b[CASE[c]] = [r[i] for r in rows]
        b.CreateLoop(list(cols))
        b["_o1"] = ["1", "3"]
        b["_o2"] = ["2", "4"]
        b.CreateLoop(["_o1", "_o2"])
    return b, [list(cols), [dict(zip(cols, r)) for r in rows]], vals


def eq(a, b):
    return type(a) is type(b) and a == b


def ops_for(variant):
    cols, vals, how = VARIANTS[variant]
    o = []
    for combo in itertools.product(*[vals[c] for c in cols]):
        o.append(("add", combo, "scratch"))
    o.append(("add", tuple(vals[c][0] for c in cols), "upper"))
    o.append(("add", tuple(vals[c][-1] for c in cols), "template"))
    o.append(("addmissing", cols[-1]))
    if all(isinstance(v, str) for v in vals[cols[-1]]):
        o.append(("addbad", cols[-1]))
    for c in cols:
        for v in vals[c]:
            o.append(("rm", c, v))
        o.append(("rm", c.upper(), vals[c][0]))
        o.append(("rm", c, "nosuch"))
        for p in range(len(cols)):
            o.append(("order", c, p))
            o.append(("border", c, p))
        o.append(("setcol", c))
        o.append(("mutate", c))
    return o


def apply_real(F, b, op, cols, vals):
    L = b.GetLoop(cols[0])
    k = op[0]
    if k == "add":
        if op[2] == "template":
            if len(L[cols[0]]) == 0:
                raise Skip
            p = L.GetPacket(0)
        else:
            p = F.StarPacket()
        for c, v in zip(VARS_COLS[op[3]], op[1]):
            setattr(p, c.upper() if op[2] == "upper" else c, v)
        L.AddPacket(p)
    elif k == "addmissing":
        p = F.StarPacket()
        for c in cols:
            if c != op[1]:
                setattr(p, c, vals[c][0])
        L.AddPacket(p)
    elif k == "addbad":
        p = F.StarPacket()
        for c in cols:
            setattr(p, c, vals[c][0] if c != op[1] else "\x07")
        L.AddPacket(p)
    elif k == "rm":
        L.RemoveKeyedPacket(op[1], op[2])
    elif k == "order":
        L.ChangeItemOrder(op[1].upper(), op[2])
    elif k == "border":
        b.ChangeItemOrder(op[1], op[2])
    elif k == "setcol":
        L[op[1].upper()] = list(reversed(b[op[1]]))
    elif k == "mutate":
        for p in list(L) + [L[i] for i in range(len(b[cols[0]]))]:
            setattr(p, op[1], "changed")
            p.append("more")
            p[0] = "changed"


VARS_COLS = {v: VARIANTS[v][0] for v in VARIANTS}


def apply_model(m, op, vals):
    cols, rows = m
    k = op[0]
    if k == "add":
        rows.append(dict(zip(VARS_COLS[op[3]], op[1])))
    elif k in ("addmissing", "addbad"):
        raise Refused
    elif k == "rm":
        c = op[1].lower()
        hit = [i for i, r in enumerate(rows) if r[c] == op[2]]
        if not hit:
            raise Refused
        del rows[hit[0]]
    elif k in ("order", "border"):
        cols.remove(op[1])
        cols.insert(op[2], op[1])
    elif k == "setcol":
        vs = [r[op[1]] for r in rows][::-1]
        for r, v in zip(rows, vs):
            r[op[1]] = v


def observe(b, m, vals, first, case):
    cols, rows = m
    L = b.GetLoop(first)
    check(list(L.keys()) == cols and L.GetItemOrder() == cols, "columns", lambda: "columns %r, expected %r" % (list(L.keys()), cols))
    for c in cols:
        col = [r[c] for r in rows]
        for got in (b[c], L[c], L[c.upper()], b[c.upper()]):
            check(len(got) == len(col) and all(eq(x, y) for x, y in zip(got, col)), "column", lambda: "%s is %r, expected %r" % (c, got, col))
    exp = [[r[c] for c in cols] for r in rows]

    def row_ok(p, i, where):
        check(len(p) == len(cols) and all(eq(x, y) for x, y in zip(p, exp[i])), "row", lambda: "%s gives %r, expected %r" % (where, list(p), exp[i]))
        for c in cols:
            for sp in (c, c.upper()):
                check(eq(getattr(p, sp), rows[i][c]), "row-attribute", lambda: "%s attribute %s is %r, expected %r" % (where, sp, getattr(p, sp), rows[i][c]))
    it = list(L)
    check(len(it) == len(rows), "iteration-length", lambda: "%d rows, expected %d" % (len(it), len(rows)))
    for i, p in enumerate(it):
        row_ok(p, i, "iteration")
    for i in range(len(rows)):
        row_ok(L[i], i, "indexing")
        row_ok(L.GetPacket(i), i, "GetPacket")
        row_ok(L[i - len(rows)], i, "negative index")
    try:
        L[len(rows)]
    except IndexError:
        pass
    else:
        check(False, "index-past-end", lambda: "row %d exists" % len(rows))
    check([list(x) for x in L.values()] == [[r[c] for r in rows] for c in cols], "values", lambda: "values() %r" % (L.values(),))
    check([(k, list(v)) for k, v in L.items()] == [(c, [r[c] for r in rows]) for c in cols], "items", lambda: "items() %r" % (L.items(),))

    def lookup(f, match, where):
        hit = [i for i, r in enumerate(rows) if match(r)]
        try:
            p = f()
        except ValueError:
            check(len(hit) != 1, "lookup-refused", lambda: "%s found nothing, row %r matches" % (where, hit))
            return
        check(len(hit) == 1, "lookup-ambiguous", lambda: "%s returned %r, rows %r match" % (where, list(p), hit))
        row_ok(p, hit[0], where)

    def low(x):
        return str(x).lower()
    for c in cols:
        for v in list(vals[c]) + ["nosuch"]:
            for sp in (c, c.upper()):
                for o in (b, L):
                    lookup(lambda: o.GetKeyedPacket(sp, v), lambda r: r[c] == v, "GetKeyedPacket(%r,%r)" % (sp, v))
                    lookup(lambda: o.GetKeyedPacket(sp, v, no_case=True), lambda r: low(r[c]) == low(v), "GetKeyedPacket(%r,%r,no_case)" % (sp, v))
            lookup(lambda: b.GetCompoundKeyedPacket({c: (v, False)}), lambda r: r[c] == v, "GetCompoundKeyedPacket(%r)" % ((c, v),))
            lookup(lambda: b.GetCompoundKeyedPacket({c.upper(): (v, True)}), lambda r: low(r[c]) == low(v), "GetCompoundKeyedPacket(%r,no_case)" % ((c, v),))
    if len(cols) > 1:
        c, d = cols[0], cols[-1]
        for v in vals[c]:
            for w in vals[d]:
                for nc in (False, True):
                    lookup(lambda: b.GetCompoundKeyedPacket({c: (v, nc), d: (w, False)}),
                           lambda r: (low(r[c]) == low(v) if nc else r[c] == v) and r[d] == w, "GetCompoundKeyedPacket(%r)" % ((c, v, nc, d, w),))
    # everything else stays
    check(b["_pre"] == "p" and b["_o1"] == ["1", "3"] and b["_o2"] == ["2", "4"] and len(b) == 3 + len(cols)
          and list(b.GetLoop("_o1").keys()) == ["_o1", "_o2"] and [x if isinstance(x, str) else "loop" for x in b.GetItemOrder()] == ["_pre", "loop", "loop"]
          and b.GetItemOrder()[1] == b.FindLoop(first), "rest-of-block", lambda: "other content changed: %s" % short(str(b)))
    if rows:
        text = str(b)
        for c in cols:
            check(case[c] in text.split(), "spelling", lambda: "%s not spelled as given in %r" % (case[c], text))


def make_run(CifFile):
    from CifFile import StarFile as F

    def run(hist, st):
        variant = hist[0]
        b, m, vals = make(CifFile, variant)
        first, case = VARS_COLS[variant][0], dict(CASE)
        for i, op in enumerate(hist[1:]):
            last = i == len(hist) - 2
            if op[0] == "add":
                op = op + (variant,)
            if op[0] == "setcol":
                case[op[1]] = op[1].upper()
            try:
                apply_model(m, op, vals)
                refused = False
            except Refused:
                refused = True
            try:
                apply_real(F, b, op, VARS_COLS[variant], vals)
                failed = None
            except Skip:
                raise
            except (KeyError, ValueError, AttributeError, F.StarError) as e:
                failed = e
            if last:
                check(refused == (failed is not None), "refusal", lambda: "%r %s" % (op, "failed: %r" % failed if failed is not None else "was not refused"))
                if refused:
                    st["refused"] += 1
        observe(b, m, vals, first, case)
        return repr((variant, m, sorted(case.items()))), len(m[1])
    return run


def run(ctx):
    import CifFile
    ctx.level = "model_checking"
    ctx.rule = ("breadth-first search over row and column operations on loops of one to three columns (text, text read from a file, numeric, mixed), "
                "with repeated and case-differing keys; after every operation all row, column and lookup views are compared with a plain table")
    ctx.assumptions = ["at most the stated number of rows; columns keep equal length", "a looked-up number equals a stored number of equal value"]
    maxrows = 3 if ctx.quick else 4
    for v in VARIANTS:
        ops = ops_for(v)
        ctx.bfs(v, [(v,)], lambda h, n, ops=ops: [o for o in ops if n < maxrows or not o[0].startswith("add")], make_run(CifFile), (3 if v.endswith("3") else 8) if ctx.quick else 12, 60000)
