"""C04: folding / prefixing reversible.  Oracle: independent line-based reference
implementation of the protocols."""
import itertools
from mc.core import check, Skip

WS = " \t\v\f"


def ref_unfold(t):
    """Remove folding: if first line is backslash + blanks, every line ending in
    backslash + blanks is joined to the next (the first line vanishes)."""
    lines = t.split("\n")
    def cont(l):
        s = l.rstrip(WS)
        return s.endswith("\\")
    def body(l):
        return l.rstrip(WS)[:-1]
    if len(lines) < 2 or lines[0].rstrip(WS) != "\\":
        return t
    out = ""
    n = len(lines)
    for i, l in enumerate(lines):
        if cont(l):
            out += body(l)
        else:
            out += l + ("\n" if i < n - 1 else "")
    return out


def ref_prefixed(t):
    """prefix text or None if t is not prefixed"""
    lines = t.split("\n")
    if len(lines) < 2:
        return None
    h = lines[0].rstrip(WS)
    if not h.endswith("\\"):
        return None
    p = h[:-1]
    if p.endswith("\\"):
        p = p[:-1]
    if not p or "\\" in p or p[0] == ";":
        return None
    if any(not l.startswith(p) for l in lines[1:]):
        return None
    return p


def run(ctx):
    from CifFile import apply_line_folding, remove_line_folding, apply_line_prefix, remove_line_prefix
    ctx.level = "exploration"
    ctx.rule = ("every text over the stated alphabet up to the length bound (all distinct by construction; "
                "none are trivial: each is folded, prefixed and unfolded and compared with a line-based "
                "reference), for every wrap range / prefix listed")

    def texts(alpha, n):
        for l in range(n + 1):
            for t in itertools.product(alpha, repeat=l):
                yield "".join(t)

    def fold_ok(t, lo, hi):
        f = apply_line_folding(t, lo, hi)
        u = remove_line_folding(f)
        check(u == t, "fold-unfold", lambda: "fold(%r,%d,%d)=%r unfolds to %r" % (t, lo, hi, f, u))
        check(ref_unfold(f) == t, "fold-ref", lambda: "fold(%r,%d,%d)=%r is not a folding of the text: %r" % (t, lo, hi, f, ref_unfold(f)))
        # width
        ml = max(len(x) for x in f.split("\n"))
        check(ml <= hi + 1, "fold-width", lambda: "fold(%r,%d,%d)=%r has a line of %d" % (t, lo, hi, f, ml))
        longest = max(len(x) for x in t.split("\n"))
        looks = ref_unfold(t) != t or ref_prefixed(t) is not None
        if longest < hi and not looks:
            check(f == t, "fold-untouched", lambda: "short text %r was folded to %r" % (t, f))
        if longest > hi:
            check(f != t and f.startswith("\\\n"), "fold-needed", lambda: "long text %r not folded (%d): %r" % (t, hi, f))
        if looks and longest < hi:
            # a text that itself looks folded or prefixed must be protected
            r = remove_line_folding(remove_line_prefix(f))
            check(r == t, "fold-protect", lambda: "%r -> %r -> %r" % (t, f, r))
        return f

    def c_fold(case, st):
        t, lo, hi = case
        fold_ok(t, lo, hi)

    n = 6 if ctx.quick else 8
    ranges = [(1, 2), (2, 3), (1, 4), (3, 4), (2, 5), (5, 80)]
    ctx.explore("fold", lambda: ((t, lo, hi) for t in texts("a \t\n\\;", n) for lo, hi in ranges), c_fold)

    # long words / spaces straddling the default and other realistic wrap ranges
    def long_cases():
        for lo, hi in [(60, 80), (5, 10), (40, 50), (10, 80)]:
            for total in list(range(hi - 3, hi + 4)) + list(range(2 * hi - 4, 2 * hi + 4)) + [3 * hi + 1]:
                for sp in [None] + list(range(lo - 2, min(total, hi + 3))) + [hi + lo - 1, hi + lo, 2 * hi - 1]:
                    if sp is not None and sp >= total:
                        continue
                    for ch in (" ", "\t", "\\", "\n", ";", "\\ ", " \\"):
                        w = list("x" * total)
                        if sp is not None:
                            w[sp] = ch
                        elif ch != " ":
                            continue
                        for tail in ("", "\\", "\\ ", "\n;", "\n"):
                            for head in ("", "\\\n", "y\\\n"):
                                yield (head + "".join(w) + tail, lo, hi)
    ctx.explore("fold-boundary", long_cases, c_fold)

    def c_unfold(case, st):
        t = case
        u = remove_line_folding(t)
        check(u == ref_unfold(t), "unfold-ref", lambda: "remove_line_folding(%r)=%r, expected %r" % (t, u, ref_unfold(t)))
        if "\\" not in t.split("\n")[0]:
            p = remove_line_prefix(t)
            check(p == t, "unprefix-touch", lambda: "remove_line_prefix(%r)=%r" % (t, p))
    ctx.explore("unfold", lambda: texts("a \t\n\\;", n + 1), c_unfold)

    prefixes = [">", "> ", "ab", "CIF:> ", "a;", " ;", ".*", "(["]

    def c_prefix(case, st):
        t, p = case
        q = apply_line_prefix(t, p)
        lines = q.split("\n")
        check(all(l.startswith(p) for l in lines), "prefix-lines", lambda: "prefix(%r,%r)=%r" % (t, p, q))
        check(len(lines) >= 2 and lines[0].rstrip(WS)[len(p):] in ("\\", "\\\\"), "prefix-header", lambda: "prefix(%r,%r)=%r" % (t, p, q))
        u = remove_line_prefix(q)
        # a folded text may have its own header normalised (trailing blanks), nothing else
        ok = u == t or (ref_unfold(t) != t and u.split("\n", 1)[1:] == t.split("\n", 1)[1:] and u.split("\n")[0] == "\\") \
            or (t.split("\n")[0].rstrip(WS) == "\\" and u.split("\n", 1)[1:] == t.split("\n", 1)[1:] and u.split("\n")[0].rstrip(WS) == "\\")
        check(ok, "prefix-remove", lambda: "prefix(%r,%r)=%r removes to %r" % (t, p, q, u))
        # composed with folding
        f = apply_line_folding(t, 2, 4)
        v = remove_line_folding(remove_line_prefix(apply_line_prefix(f, p)))
        if f != t or ref_unfold(t) == t:
            check(v == t, "prefix-fold", lambda: "fold+prefix(%r,%r) gives %r" % (t, p, v))
    ctx.explore("prefix", lambda: ((t, p) for t in texts("a \n\\;>", n - 1) for p in prefixes), c_prefix)

    # other line separators are ordinary characters
    ctx.explore("prefix-controls", lambda: ((t, p) for t in texts("a\n\\\v\f\x85\u2028", 4 if ctx.quick else 5) for p in prefixes[:4]), c_prefix)
    ctx.explore("fold-controls", lambda: ((t, lo, hi) for t in texts("a\n\\\v\f\x85\u2028", 5 if ctx.quick else 6) for lo, hi in ranges[:4]), c_fold)
    ctx.explore("unfold-controls", lambda: texts("a\n\\\v\f", 6 if ctx.quick else 7), c_unfold)

    def c_unprefix(case, st):
        t = case
        p = ref_prefixed(t)
        u = remove_line_prefix(t)
        if p is None:
            check(u == t, "unprefix-not-prefixed", lambda: "remove_line_prefix(%r)=%r but the text is not prefixed" % (t, u))
        else:
            lines = t.split("\n")
            rest = "\n".join(l[len(p):] for l in lines[1:])
            head = lines[0].rstrip(WS)
            if head.endswith("\\\\"):
                rest = "\\\n" + rest
            check(u == rest, "unprefix-prefixed", lambda: "remove_line_prefix(%r)=%r, expected %r" % (t, u, rest))
    ctx.explore("unprefix", lambda: texts("ab \n\\;", n + 1), c_unprefix)
