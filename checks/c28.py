"""C28: a refused text is reported by where it goes wrong."""
import contextlib, io, itertools
from mc.core import check, Skip
from checks import refparse as R

# (kind, text, value, raw parts): the parts are the scanner's tokens
def T(kind, text, value=None, *raw):
    return (kind, text, value, raw)


def alphabet(g):
    two = g in ("2.0", "STAR2")
    q = "single_quote_data_value" if two else "data_value_1"
    out = [T("data", "data_a@", "a@", ("data_heading", "data_a@")), T("loop", "loop_", None, ("LBLOCK", "loop_")),
           T("name", "_n@", "_n@", ("data_name", "_n@")), T("val", "v@", "v@", ("data_value_1", "v@")),
           T("val", "'q @'", "q @", (q, "'q @'")),
           T("val", "\n;t @\n\n  u;\nw\n;", "t @\n\n  u;\nw", ("start_sc_line", "\n;t @\n\n"), ("sc_line_of_text", "  u;\n"), ("sc_line_of_text", "w\n"), ("end_sc_line", ";")),
           T("save", "save_f@", "f@", ("save_heading", "save_f@")), T("end", "save_", None, ("save_end", "save_"))]
    if two:
        out += [T("val", "'''x\ny @'''", "x\ny @", ("triple_quote_data_value", "'''x\ny @'''")),
                T("[", "[", None, ("o_s_b", "[")), T("]", "]", None, ("c_s_b", "]")), T("{", "{", None, ("o_c_b", "{")), T("}", "}", None, ("c_c_b", "}")),
                T("key", "'k@':", "k@", (q, "'k@'"), ('":"', ":"))]
    return out


GLOB = [T("glob", "global_"), T("stop", "stop_"), T("junk", "'open"), T("junk", "$x")]
SEPS = [" ", "\n", "\n\n# a comment ' \n ", "\t \n\t", " # c\n"]


def number(t, i):
    return tuple(x.replace("@", str(i)) if isinstance(x, str) else x for x in t[:3]) + (tuple((a, b.replace("@", str(i))) for a, b in t[3]),)


def status(toks, g):
    return R.status([t[:3] for t in toks], g)[0]


def lay(toks, start, seps):
    """The text, and (first character, past the last one, name, text) of every scanner token"""
    out, raw = start, []
    for i, t in enumerate(toks):
        out += seps[i % len(seps)]
        at = len(out)
        out += t[1]
        for n, s in t[3]:
            raw.append((at, at + len(s), n, s))
            at += len(s)
    return out, raw


def place(toks, g):
    """Number of scanner tokens before the first that cannot be there (None: the text is right, or the fault is not in its syntax)"""
    lo = 0      # what goes on after a dead beginning is dead too
    if len(toks) > 500:
        hi = len(toks)
        while lo < hi - 1:
            mid = (lo + hi) // 2
            if status(toks[:mid], g) == "dead":
                hi = mid
            else:
                lo = mid
    for n in range(lo + 1, len(toks) + 1):
        if status(toks[:n], g) == "dead":
            bad, before = toks[n - 1], toks[:n - 1]
            r = sum(len(t[3]) for t in before)
            if bad[0] == "glob" or bad[0] == "stop" or bad[0] == "junk":
                # these can never be there, but whether a loop was whole is found out later
                return r
            if bad[0] in ("data", "name", "loop", "save", "end") and status(before, g) == "short" and ragged(before, g):
                return None
            if bad[0] in ("val", "[", "{") and before and before[-1][0] == "loop":
                return None         # a loop without names is not an error of syntax
            if bad[0] == "key":
                return None         # text that goes on after a quoted value is not decided
            if bad[0] == "val" and bad[1][0] == "'" and g in ("2.0", "STAR2") and status(before + [("key", "'z':", "z", ())], g) != "dead":
                return None
            return r
    return sum(len(t[3]) for t in toks) if status(toks, g) == "short" and not ragged(toks, g) else None


def ragged(toks, g):
    """The tokens end in a loop that has values, but not a whole number of rows (an error that is not one of syntax)"""
    n = len(toks)
    depth = 0
    for i in range(n - 1, -1, -1):
        k = toks[i][0]
        if k in ("]", "}"):
            depth += 1
        elif k in ("[", "{"):
            depth -= 1
            if depth < 0:
                return False
        elif depth == 0 and k not in ("val", "key"):
            break
    else:
        return False
    if i == n - 1 or toks[i][0] != "name":
        return False
    while i >= 0 and toks[i][0] == "name":
        i -= 1
    return i >= 0 and toks[i][0] == "loop"


def last_value(toks, upto):
    """The last whole value before the given scanner token"""
    n, stack, last = 0, [], None
    for t in toks:
        n += len(t[3])
        if n > upto:
            break
        if t[0] in ("[", "{"):
            stack.append((t[0], []))
        elif t[0] in ("]", "}"):
            o, items = stack.pop()
            last = items if o == "[" else dict(items)
        elif t[0] == "val":
            last = t[2]
        elif t[0] == "key":
            stack.append(("k", t[2]))
            continue
        else:
            continue
        if t[0] not in ("[", "{"):
            v = last
            if stack and stack[-1][0] == "k":
                v = (stack.pop()[1], v)
            if stack:
                stack[-1][1].append(v)
    return last


def run(ctx):
    ctx.level = "exploration"
    ctx.rule = ("a case is (token sequence, grammar, scanner, layout): every sequence whose proper prefixes can all be completed and that cannot itself be, with what follows it; "
                "the reported tokens, places, last value and pointer are compared with a reference that knows where every token lies")
    ctx.assumptions = ["faults that are not in the syntax (repeated names, loops with part of a row) are reported by name, without a place"]
    import CifFile

    def read(text, g, scan):
        e, o = io.StringIO(), io.StringIO()
        with contextlib.redirect_stderr(e), contextlib.redirect_stdout(o):
            try:
                CifFile.ReadCif(io.StringIO(text), grammar=g, scantype=scan)
            except CifFile.StarError as x:
                return x.value, e.getvalue()
        return None, e.getvalue()

    def show(v):
        return "" if v is None else repr(CifFile.StarList(v)) if isinstance(v, list) else repr(v)

    def judge(toks, g, scan, seps, st, after=""):
        start = "#\\#CIF_2.0" if g in ("2.0",) else "# head"
        if seps[0] == " ":
            seps = ("\n",) + tuple(seps[1:])
        toks = [number(t, i) for i, t in enumerate(toks)]
        upto = place(toks, g)
        if upto is None or (after and status(toks, g) != "dead"):
            raise Skip()
        text, raw = lay(toks, start, seps)
        bad = raw[upto] if upto < len(raw) else None
        at = bad[0] if bad else None
        junk = [t for t in toks if t[0] in ("glob", "stop", "junk")]
        if at is None and junk:
            i = text.index(junk[0][1], raw[upto - 1][1] if upto else len(start))
            at = i
        text += after + "\n"
        if at is None:
            at = len(text)
        msg, err = read(text, g, scan)
        here = lambda: "%s %s %r: %r / %r" % (g, scan, text, msg, err)
        check(msg is not None, "accepted", here)
        if not msg.startswith("Syntax error in input file"):
            check(any(t[0] == "loop" for t in toks) , "not reported as an error of syntax", here)
            raise Skip()
        head, _nl, listing = msg.partition("\nParser status: ")
        check(head == "Syntax error in input file: last value parsed was " + show(last_value(toks, upto)), "the last value is wrong", lambda: "%r instead of %r: %s" % (head, show(last_value(toks, upto)), here()))
        if scan == "standard":
            # the token that cannot be there, or the end of the text, is listed when some other rule could use it
            full = raw + [(len(text), len(text), "END", "")]
            want, alt = ["".join("\n  (@%d)  %s  =  %r" % (a, n, s) for a, _b, n, s in full[:k][-10:]) for k in (upto, upto + 1)]
            check(listing == want or listing == alt, "the tokens listed are wrong", lambda: "%r instead of %r: %s" % (listing, want, here()))
            lines = err.split("\n")
            if listing != want:
                a, b = full[upto][:2]
                check(lines[0].startswith("%d:%d: " % (text.count("\n", 0, b) + 1, b - text.rfind("\n", 0, b) - 1)), "line and column are wrong", here)
                st["reports compared, used by another rule"] += 1
                return
            ls = text.rfind("\n", 0, at) + 1
            le = text.find("\n", at)
            line = text[ls:le if le >= 0 else len(text)]
            check(lines[0].startswith("%d:%d: " % (text.count("\n", 0, at) + 1, at - ls)), "line and column are wrong", lambda: "%r instead of %d:%d: %s" % (lines[0], text.count("\n", 0, at) + 1, at - ls, here()))
            check(len(lines) == 4 and lines[1].startswith(">  ") and lines[2].startswith(">  ") and lines[2][3:].strip() == "^", "the pointer is missing", here)
            s, p = lines[1][3:], len(lines[2]) - 4
            c = at - ls
            near = min(p, c, 15)
            check(s[p - near:p] == line[c - near:c] and line[c:].startswith(s[p:]) and len(s[p:]) >= min(len(line[c:]), 10),
                  "the pointer is not at the place", here)
        else:
            seen = raw[:upto + 1] if bad else raw[:upto]
            rows = listing.split("\n  (~line ")[1:]
            if not bad:
                # what follows is the end of the text or no token: how it is shown is not fixed
                rows = rows[:-1] if rows and not rows[-1].endswith("=  %r" % seen[-1][3]) else rows
                check(len(rows) >= min(9, len(seen)), "tokens are missing", here)
                seen = seen[len(seen) - len(rows):]
            want = ["%d)  %s  =  %r" % (text.count("\n", 0, b), n, s) for _a, b, n, s in seen[-10:]]
            check(rows == want, "the tokens listed are wrong", lambda: "%r instead of %r: %s" % (rows, want, here()))
        st["reports compared"] += 1

    def scans(g):
        return ("standard", "flex") if g in ("1.0", "1.1") else ("standard",)

    def gen(depth):
        for g in ("1.1", "2.0", "STAR2") if ctx.quick else ("1.0", "1.1", "2.0", "STAR2"):
            A = alphabet(g)
            stack = [(t,) for t in A if t[0] == "data"]
            while stack:
                seq = stack.pop()
                numbered = [number(t, i) for i, t in enumerate(seq)]
                s = status(numbered, g)
                for scan in scans(g):
                    if s != "ok":
                        yield (g, scan, seq, len(seq) % len(SEPS), "")
                    if s == "dead":
                        yield (g, scan, seq, (len(seq) + 1) % len(SEPS), " data_more _z 1")
                if s != "dead":
                    for t in GLOB:
                        for scan in scans(g):
                            yield (g, scan, seq + (t,), (len(seq) + 2) % len(SEPS), "")
                    if len(seq) < depth - (1 if g in ("2.0", "STAR2") else 0):
                        stack.extend(seq + (t,) for t in A)

    def fn(case, st):
        g, scan, seq, sep, after = case
        judge(list(seq), g, scan, tuple(SEPS[sep:] + SEPS[:sep]), st, after)

    ctx.explore("every wrong and unfinished sequence", lambda: gen(5 if ctx.quick else 6), fn)

    # ---- many tokens, long lines, many lines ----------------------------------------------
    def gen2():
        for g in ("1.0", "1.1", "2.0", "STAR2"):
            A = alphabet(g)
            D, L, N, V, Q, X = A[:6]
            for scan in scans(g):
                for n in range(0, 8):
                    for pre in ((N, V), (N, Q), (N, X)):
                        for bad in ((V,), (N,), (N, N), (L, V), (L, N, L), (A[7],), (N, D), (A[6],), (X,)):
                            for sep in range(len(SEPS)):
                                yield (g, scan, (D,) + pre * n + bad, sep, "")
                for n in (3, 10, 30, 100):
                    for w in (1, 2):
                        for bad in ((N,), (V,), (L, D)):
                            for after in ("", " " + "x" * 90, "\n" + "x" * 90):
                                yield (g, scan, (D, L) + (N,) * w + (V, Q)[:w] * n + bad, -1, after)
                                yield (g, scan, (D, L) + (N,) * w + (V, X)[:w] * n + bad, 1, after)
                if scan == "flex":     # around the sizes of its store of tokens
                    for n in list(range(4178, 4198)) + list(range(8370, 8392)) + [12576, 13000]:
                        yield (g, scan, (D, L, N) + (V,) * n + (N,), -1, "")

    def fn2(case, st):
        g, scan, seq, sep, after = case
        judge(list(seq), g, scan, ("\n",) + (" ",) * 20000 if sep == -1 else tuple(SEPS[sep:] + SEPS[:sep]), st, after)

    ctx.explore("long texts and long lines", gen2, fn2)
