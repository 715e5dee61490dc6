"""C21: values are converted to the type their definition declares."""
import itertools
from fractions import Fraction
from mc.core import check, Skip
from checks.dicbuild import *

ALPHA = "+-.07()e"
_dics = {}


def cached(text):
    if text not in _dics:
        if len(_dics) > 60:
            _dics.clear()
        _dics[text] = load(text)
    return _dics[text]


def numeral(s):
    """(value, uncertainty or None) as exact fractions, or None if s is not a number: an independent reading of the
    CIF number grammar, where the uncertainty follows the number (or, as many programs write it, the mantissa)"""
    i, n = 0, len(s)
    neg = False
    if i < n and s[i] in "+-":
        neg = s[i] == "-"
        i += 1
    j = i
    while j < n and s[j].isdigit():
        j += 1
    whole, frac = s[i:j], ""
    i = j
    if i < n and s[i] == ".":
        i += 1
        j = i
        while j < n and s[j].isdigit():
            j += 1
        frac = s[i:j]
        i = j
    if not whole and not frac:
        return None
    su = exp = None
    for _ in (0, 1):
        if i < n and s[i] == "(" and su is None:
            j = s.find(")", i)
            if j < 0 or not s[i + 1:j].isdigit():
                return None
            su = int(s[i + 1:j])
            i = j + 1
        elif i < n and s[i] in "eEdD" and exp is None:
            j = i + 1
            if j < n and s[j] in "+-":
                j += 1
            k = j
            while k < n and s[k].isdigit():
                k += 1
            if k == j:
                return None
            exp = int(s[i + 1:k])
            i = k
    if i != n:
        return None
    p = Fraction(10) ** ((exp or 0) - len(frac))
    v = int(whole + frac) * p
    return (-v if neg else v), (None if su is None else su * p), neg


def same(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b) and repr(a) == repr(b)


def run(ctx):
    ctx.rule = ('a case is a text and a declared type: every text to the length bound over the characters of numbers, every numeral form, every type and container; non-trivial = the conversion was compared with exact arithmetic on the text, or the refusal with the reference')
    import CifFile
    M = CifFile.CifFile_module

    def f_num(s, st):
        want = numeral(s)
        got = M.get_number_with_esd(s)
        if want is None:
            check(got == (None, None), "not-a-number", lambda: "%r is not a number but gives %r" % (s, got))
            try:
                v = M.float_with_esd(s)
            except ValueError:
                return
            check(False, "not-a-number", lambda: "%r is not a number but is converted to %r" % (s, v))
        st["numbers"] += 1
        v, su, neg = want
        try:
            fv = float(v)
            fs = None if su is None else float(su)
        except OverflowError:
            raise Skip()
        if neg and fv == 0:
            fv = -0.0
        check(same(got[0], fv) and (fs is None) == (got[1] is None) and (fs is None or got[1] == fs), "number",
              lambda: "%r gives %r instead of %r" % (s, got, (fv, fs)))
        x = M.float_with_esd(s.replace("d", "e").replace("D", "e") if su is None else s)
        check(same(x, fv), "float", lambda: "%r is converted to %r instead of %r" % (s, x, fv))

    L = 6 if ctx.quick else 8
    ctx.explore("every text to length %d" % L, lambda: ("".join(t) for n in range(L + 1) for t in itertools.product(ALPHA, repeat=n)), f_num)

    def g_form():
        ints = ("", "0", "1", "12", "007", "90") + (() if ctx.quick else ("1234567890123456789", "5"))
        fracs = ("", ".", ".0", ".5", ".25", ".001", ".90") + (() if ctx.quick else (".12345678901234567", ".1"))
        exps = ("", "e1", "E5", "e+05", "E-3", "d2", "D-12", "e00", "e-20", "E22") + (() if ctx.quick else ("e300", "E-300", "d+7"))
        sus = ("", "(1)", "(12)", "(0)", "(03)", "(250)", "()", "(1", "(-1)", "(1.5)", "(1)(2)")
        tails = ("", "x", " ", "e", ".", "_")
        for sg in ("", "+", "-", "--"):
            for i, f, e, u in itertools.product(ints, fracs, exps, sus):
                for t in tails if (u == "" or e == "") else ("",):
                    yield sg + i + f + e + u + t
                    if e and u:
                        yield sg + i + f + u + e + t

    def f_form(s, st):
        if s.strip() != s and numeral(s) is None or "_" in s:       # Python reads blanks and underscores itself
            check(M.get_number_with_esd(s) == (None, None), "not-a-number", lambda: "%r is not a number but gives %r" % (s, M.get_number_with_esd(s)))
            return
        f_num(s, st)
    ctx.explore("numerals of every form", g_form, f_form)

    # ------------------------------------------------------------------ by definition
    def real(s):
        return float(numeral(s)[0])

    def integer(s):
        return int(s)

    def comp(s):
        return complex(s)

    def imag(s):
        return complex(0, real(s))

    def low(s):
        return s.lower()

    def text(s):
        return s
    TYPES = {"Real": (real, ("1", "-2.50", "+.5", "3.25(12)", "1.5E3(2)", "1.5(2)E3", "7.e-2", "0", "-0.0")),
             "Integer": (integer, ("5", "-12", "+3", "0", "007", "123456789012345678901")), "Count": (integer, ("5", "0", "12")), "Index": (integer, ("5", "1")),
             "Complex": (comp, ("1+2j", "-1.5-2.5j", "3", "2j")), "Imag": (imag, ("2", "-1.5", "0.25(3)")),
             "Code": (low, ("Abc", "x1", "5", "AB-c")), "Name": (low, ("Abc", "A_b")), "Tag": (low, ("_A.b", "_x")),
             "Text": (text, ("Abc", "5", "1.5(2)", "a b")), "Word": (text, ("Abc", "5")), "Date": (text, ("2020-01-01",)), "Uri": (text, ("http://X",)), "Version": (text, ("1.2.3",)),
             "DateTime": (text, ("2020-01-01T10:00",)), "Dimension": (text, ("[3]",)), "ByReference": (text, ("Abc", "5"))}
    UNKNOWN = ("?", ".")

    def q(s):
        return "'%s'" % s if " " in s or s[0] in "_[" else s

    def typ(v):
        return "t" if isinstance(v, str) else type(v).__name__

    def equal(a, b):
        """same kinds and values"""
        if isinstance(b, (list, tuple)):
            return not isinstance(a, str) and hasattr(a, "__len__") and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
        if isinstance(b, dict):
            return hasattr(a, "keys") and sorted(a.keys()) == sorted(b) and all(equal(a[k], b[k]) for k in b)
        if isinstance(b, bool) or isinstance(b, str):
            return isinstance(a, str) and a == b
        if isinstance(a, str):
            return False
        kinds = {int: "iu", float: "f", complex: "c"}[type(b)]
        import numpy
        return numpy.asarray(a).dtype.kind in (kinds + ("O" if kinds == "iu" else "")) and numpy.asarray(a).shape == () and a == b

    def verify(b, name, stored, want, label):
        """stored: what the text gives; want: the converted value, or None if it must stay as stored"""
        for nm in (name, name.upper(), name):
            b.provide_value = True
            got = b[nm]
            check(equal(got, stored if want is None else want), "converted", lambda: "%s: %s is %r instead of %r" % (label(), nm, got, stored if want is None else want))
            b.provide_value = False
            got = b[nm]
            check(equal(got, stored), "stored", lambda: "%s: without conversion %s is %r instead of %r" % (label(), nm, got, stored))

    def g_single():
        for t, (fn, vals) in TYPES.items():
            vals = vals + UNKNOWN
            for v in vals:
                yield t, "set", (v,)
            for n in (1, 2) if ctx.quick else (1, 2, 3):
                for row in itertools.product(vals, repeat=n):
                    yield t, "loop", row

    def f_single(case, st):
        t, where, row = case
        fn = TYPES[t][0]
        d = cached(cat("s") + item("s", "x", t) + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned") + item("l", "x", t) + item("l", "o"))
        if where == "set":
            b = block("_s.x " + q(row[0]), d)
            stored, known = row[0], row[0] not in UNKNOWN
            want = fn(row[0]) if known else None
            name = "_s.x"
        else:
            b = block("loop_\n_l.k\n_l.x\n" + "\n".join("k%d %s" % (i, q(v)) for i, v in enumerate(row)), d)
            stored = list(row)
            want = [fn(v) for v in row] if not any(v in UNKNOWN for v in row) else None
            name = "_l.x"
            st["rows"] += len(row)
        before = str(b)
        verify(b, name, stored, want, lambda: "%s %s" % (t, where))
        check(str(b) == before, "changed", lambda: "reading %s %r changed the block to %s" % (t, row, str(b)))
        if where == "loop":
            p = b.GetKeyedPacket("_l.k", "k0")
            check(getattr(p, "_l.x") == row[0], "packet", lambda: "row 0 of %r holds %r" % (row, getattr(p, "_l.x")))
    ctx.explore("single values of every type", g_single, f_single)

    # ------------------------------------------------------------------ lists and matrices
    def write(v):
        return "[" + " ".join(write(x) for x in v) + "]" if isinstance(v, (list, tuple)) else q(v)

    def aslist(v):
        return [aslist(x) for x in v] if isinstance(v, (list, tuple)) else v

    def deep(fn, v):
        return [deep(fn, x) for x in v] if isinstance(v, (list, tuple)) else fn(v)

    def anyq(v):
        return any(anyq(x) for x in v) if isinstance(v, (list, tuple)) else v in UNKNOWN

    def shapes(vals, depth):
        """every list of up to three elements, nested to the depth"""
        yield from (list(t) for n in (1, 2, 3) for t in itertools.product(vals, repeat=n))
        if depth > 1:
            inner = [list(t) for n in (1, 2) for t in itertools.product(vals, repeat=n)]
            yield from (list(t) for n in (1, 2) for t in itertools.product(inner, repeat=n))

    def g_list():
        for t in ("Real", "Integer", "Code", "Text", "Complex", "Imag"):
            vals = TYPES[t][1][:3] if ctx.quick else TYPES[t][1][:5]
            for v in shapes(vals + UNKNOWN[:1], 2):
                dims = [None]
                if all(not isinstance(x, list) for x in v):
                    dims.append("[%d]" % len(v))
                elif len({len(x) for x in v}) == 1:
                    dims.append("[%d %d]" % (len(v), len(v[0])))
                for dim in dims:
                    yield "List", t, dim, v
                    if dim:
                        yield "List", t, "'%s'" % dim, v
            for v in shapes(vals[:2], 2):
                if all(not isinstance(x, list) for x in v) or len({len(x) for x in v}) == 1:
                    yield "Matrix", t, None, v
                    yield "Array", t, None, v
        for v in itertools.product(("1.5", "2(1)", "?"), ("5", "-7"), ("Ab", "c")):
            yield "List", "Real,Integer,Code", "[1]", list(v)
            yield "List", "List(Real,Integer,Code)", "[1]", list(v)
            yield "List", "Real,Integer,Code", "'[1]'", list(v)
            yield "List", "Real,Integer,Code", None, list(v)
            for w in itertools.product(("2",), ("0", "1"), ("Q",)):
                yield "List", "List(Real,Integer,Code)", "[2]", [list(v), list(w)]
                yield "List", "Real,Integer,Code", "'[2]'", [list(v), list(w)]

    def f_list(case, st):
        cont, t, dim, v = case
        for where in ("set", "loop"):
            typs = [item(c, "x", "'%s'" % t, container=cont, dim=dim) for c in ("s", "l")]
            d = cached(cat("s") + typs[0] + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned") + typs[1])
            other = v if t.count(",") else v[::-1]
            if where == "set":
                b = block("_s.x " + write(v), d)
            else:
                b = block("loop_\n_l.k\n_l.x\na %s\nb %s\nc %s" % (write(v), write(other), write(v)), d)

            def conv(v):
                if "," in t:
                    fns = (real, integer, low)
                    one = lambda r: [f(x) for f, x in zip(fns, r)]
                    return one(v) if "2" not in (dim or "") else [one(r) for r in v]
                return deep(TYPES[t][0], v)
            stored = aslist(v) if where == "set" else [aslist(x) for x in (v, other, v)]
            want = None if anyq(v) else conv(v) if where == "set" else [conv(x) for x in (v, other, v)]
            before = str(b)
            verify(b, "_s.x" if where == "set" else "_l.x", stored, want, lambda: "%s of %s, dimension %s, in a %s" % (cont, t, dim, where))
            check(str(b) == before, "changed", lambda: "reading %s of %s %r changed the block to %s" % (cont, t, v, str(b)))
            st["lists"] += 1
    ctx.explore("lists and matrices", g_list, f_list)

    # ------------------------------------------------------------------ values given as numbers
    NUMS = (0, 1, -7, 2.5, -0.125, 0.1 + 0.2, 1e22, 1e-7, 123456789.123456, 2.0 ** 60, 5e-324, 1.7976931348623157e308, -1e16, 10 ** 25, 1 / 3)

    def g_given():
        for t in ("Real", "Integer"):
            ok = [v for v in NUMS if t == "Real" or isinstance(v, int)]
            for v in ok:
                yield t, "Single", "set", v
            for a, b in itertools.product(ok, repeat=2):
                yield t, "Single", "loop", [a, b]
                yield t, "List", "set", [a, b]
                yield t, "List", "loop", [[a, b], [b]]
                if 10 ** 25 in (a, b):
                    continue
                yield t, "Matrix", "set", [[a, b], [b, a]]
                yield t, "Matrix", "loop", [[[a, b], [b, a]], [[b, b], [a, a]]]

    def f_given(case, st):
        t, cont, where, v = case
        d = cached(cat("s") + item("s", "x", t, container=cont) + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned") + item("l", "x", t, container=cont))
        kind = float if t == "Real" else int
        want = deep(kind, v)
        b = CifFile.CifBlock(compat_mode=False)
        name = "_s.x" if where == "set" else "_l.x"
        if where == "set":
            b[name] = CifFile.StarFile.StarList([CifFile.StarFile.StarList(r) if isinstance(r, list) else r for r in v]) if isinstance(v, list) else v
        else:
            b["_l.k"] = ["a", "b"]
            S = CifFile.StarFile.StarList
            b["_l.x"] = [S([S(r) if isinstance(r, list) else r for r in x]) if isinstance(x, list) else x for x in v]
            b.CreateLoop(["_l.k", "_l.x"])
        b.assign_dictionary(d)
        f = CifFile.CifFile(standard="CIF2")
        f["x"] = b
        f.set_grammar("2.0")
        for turn in (0, 1):
            b.provide_value = True
            got = b[name]
            num = lambda x: num(x.tolist()) if hasattr(x, "tolist") else [num(y) for y in x] if isinstance(x, (list, tuple)) else kind(x)
            check(num(got) == want, "given", lambda: "%s %s: %r was given, %r is returned" % (t, cont, v, got))
            b.provide_value = False
            out = f.WriteOut()
            c = CifFile.ReadCif(io.StringIO(out), grammar="2.0")["x"]
            c.assign_dictionary(d)
            c.provide_value = True
            got2 = c[name]
            check(num(got2) == want, "written", lambda: "%s %s: %r was given, written as %s and read as %r" % (t, cont, v, out[-120:], got2))
            st["given"] += 1
    ctx.explore("numbers given, written and read", g_given, f_given)
