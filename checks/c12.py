"""C12: reads do not influence each other; failed reads leave no trace."""
import io, itertools, os, pickle, tempfile
from mc.core import check, Skip, short
from checks import refparse as R

M = "#\\#CIF_2.0\n"
FILES = ["data_a _x v\nloop_ _l _m 1 2 3 4\ndata_b _x w\n",
         "data_a\n_x\n;t\n u\n;\n_y 'q r'\n",
         "data_a save_f _x v save_ _y z\n",
         "data_a _x [v]\n_y ']'\n",
         M + "data_a _x [v {'k':w}] _y '''t'''\nloop_ _l [1] {}\n",
         "data_a _x [a,[b,c]] _y {'k':v}\n",
         "",
         "#nothing\n",
         # bad ones
         "data_a _x v v\n", "data_a _x v _X w\n", "data_a\n_x\n;unterminated\n", "data_a loop_ _x _y 1 2 3\n", "data_a _x v data_a _y w\n",
         M + "data_a _x [v\n", "data_a _x {'k':v\n", "data_a save_f _x v\n", "data_a _x 'q\n", "_x v\n", b"data_a _x '\xe9'\n", M.encode() + b"data_a _x \xff\n"]
CONF = [("1.0", "standard", False), ("1.0", "flex", False), ("1.1", "standard", False), ("1.1", "flex", False), ("2.0", "standard", False), ("STAR2", "standard", False),
        ("auto", "standard", False), ("auto", "flex", True)]


class FailingStream(object):
    def __init__(self, n):
        self.n = n

    def read(self, *a):
        raise OSError("device lost")


def do_read(CifFile, i, c, keep=None):
    g, sc, perm = CONF[c]
    src = FILES[i]
    src = io.BytesIO(src) if isinstance(src, bytes) else io.StringIO(src)
    try:
        r = CifFile.ReadCif(src, grammar=g, scantype=sc, permissive=perm)
    except CifFile.StarError:
        return "refused"
    if keep is not None:
        keep.append(r)
    return full(r)


def full(r):
    return dict(blocks=R.seen(r), keys=sorted(r.keys()), grammar=r.grammar, uri=r.my_uri, master=sorted(r.master_template), std=r.standard,
                owr=[r.dictionary[k].overwrite for k in sorted(r.dictionary)], chars=r.characterset)


def spoil(r):
    """Change everything reachable from an earlier result."""
    for k in list(r.dictionary):
        b = r.dictionary[k]
        for n in list(b.keys()):
            v = b[n]
            if isinstance(v, list):
                for x in v:
                    if isinstance(x, list):
                        x.append("spoilt")
                    elif isinstance(x, dict):
                        x["spoilt"] = "1"
                v.append("spoilt")
            elif isinstance(v, dict):
                v["spoilt"] = "1"
        b.overwrite = True
        b.block["_spoilt"] = ["s", "s"]
        b.loops[99] = ["_spoilt"]
        b.item_order.append(99)
        for n in list(b.block)[:1]:
            b.block[n] = ["gone", "gone"]
    r.set_grammar("1.0")
    r.scoping = "dictionary"
    try:
        r.NewBlock("spoilt")
    except Exception:
        pass


def fresh(CifFile, pairs):
    """Outcome of every single read, each in a process that has read nothing."""
    out = {}
    for p in pairs:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                d = pickle.dumps(do_read(CifFile, *p))
                while d:
                    d = d[os.write(w, d):]
            except BaseException as e:
                os.write(w, pickle.dumps("exception:%s" % type(e).__name__))
            os._exit(0)
        os.close(w)
        data = b""
        while True:
            d = os.read(r, 65536)
            if not d:
                break
            data += d
        os.close(r)
        os.waitpid(pid, 0)
        out[p] = pickle.loads(data)
    return out


def run(ctx):
    import CifFile
    from CifFile import StarError
    ctx.level = "model_checking"
    ctx.rule = ("a case is a sequence of reads (input, grammar, scanner), with every earlier result altered in between; each outcome must equal the outcome of the "
                "same read in a process that has read nothing before")
    pairs = [(i, c) for i in range(len(FILES)) for c in range(len(CONF))]
    base = fresh(CifFile, pairs)

    def f_single(case, st):
        check(not str(base[case]).startswith("exception:"), "wrong-error", lambda: "reading %r with %r raises %s" % (FILES[case[0]], CONF[case[1]], base[case]))
        bad = case[0] >= 8 and case[0] not in (13, 14)
        if bad and not (CONF[case[1]][2] and isinstance(FILES[case[0]], bytes)):
            check(base[case] == "refused", "bad-file-accepted", lambda: "%r with %r: %s" % (FILES[case[0]], CONF[case[1]], short(base[case])))
        st["accepted" if base[case] != "refused" else "refused"] += 1
    ctx.explore("single", lambda: iter(pairs), f_single)

    def fn(case, st):
        seq, mut = case
        kept, before = [], []
        for n, p in enumerate(seq):
            new = []
            got = do_read(CifFile, *p, keep=new)
            check(got == base[p], "influenced", lambda: "after %s: reading %r with %r gives %s, on its own %s" % (
                [(FILES[a], CONF[b][:2]) for a, b in seq[:n]], FILES[p[0]], CONF[p[1]], short(got, 300), short(base[p], 300)))
            for r, snap in kept:
                check(full(r) == snap, "earlier-result-changed", lambda: "reading %r changed an earlier result" % (FILES[p[0]],))
            if mut == "spoil":
                for r in new:
                    spoil(r)
            else:
                kept += [(r, full(r)) for r in new]
        if mut == "late":
            for i, (r, snap) in enumerate(kept):
                spoil(r)
                for r2, snap2 in kept[i + 1:]:
                    check(full(r2) == snap2, "results-share-data", lambda: "altering the result of one read changes the result of another: %r" % (seq,))

    def g():
        for a, b in itertools.product(pairs, repeat=2):
            yield (a, b), "spoil"
            yield (a, b), "late"
        few = [p for p in pairs if p[0] in (0, 3, 4, 6, 8, 10, 14) and p[1] in (2, 3, 4, 6)] if ctx.quick else [p for p in pairs if p[1] in (0, 3, 4, 6, 7)]
        for s in itertools.product(few, repeat=3):
            yield s, "spoil"
    ctx.explore("sequences", g, fn)

    # every truncation and every one-character corruption: only the library's error,
    # and the next read is as if nothing had happened
    good = {(g, sc): None for g, sc, p in CONF}
    BASES = FILES[:6] + ["data_a\nloop_\n_a\n_b\n1 'x y'\n;\ntext\n;\n\"z\" # c\nsave_f\n_c ? save_\ndata_b _d .\n"]

    def f_fault(case, st):
        text, c = case
        g, sc, perm = CONF[c]
        try:
            r = CifFile.ReadCif(io.StringIO(text), grammar=g, scantype=sc)
            st["accepted"] += 1
            check(isinstance(r, CifFile.CifFile), "no-result", lambda: "%r returned %r" % (text, r))
            R.seen(r)
        except StarError:
            st["refused"] += 1
        p = (0, c) if g != "2.0" else (4, c)
        got = do_read(CifFile, *p)
        check(got == base[p], "influenced-by-bad-file", lambda: "after %r (%s, %s): %s instead of %s" % (text, g, sc, short(got, 300), short(base[p], 300)))

    def g_fault():
        for b in BASES:
            for c in range(len(CONF)):
                for i in range(len(b)):
                    yield b[:i], c
                    for ch in "'\"; \n[]{}_#v\\" if ctx.quick else "'\"; \n[]{}_#v\\:,$\t\r.?\x00\u00e9":
                        if ch != b[i]:
                            yield b[:i] + ch + b[i + 1:], c
                    yield b[:i] + b[i + 1:], c
    ctx.explore("faults", g_fault, f_fault)

    # failing sources
    top = ctx.scratch or tempfile.gettempdir()

    def f_src(case, st):
        kind, c, after = case
        g, sc, perm = CONF[c]
        r = None
        try:
            if kind == "stream":
                r = CifFile.ReadCif(FailingStream(0), grammar=g, scantype=sc)
            elif kind == "missing":
                r = CifFile.ReadCif(os.path.join(top, "no", "such.cif"), grammar=g, scantype=sc)
            elif kind == "bytes":
                r = CifFile.ReadCif(io.BytesIO(b"data_a _x \xff\xfe\n"), grammar=g, scantype=sc)
        except (StarError, OSError):
            pass
        check(r is None, "failed-read-returned", lambda: "%s returned %r" % (kind, r))
        p = (after, c)
        got = do_read(CifFile, *p)
        check(got == base[p], "influenced-by-failure", lambda: "after %s: %s" % (kind, short(got)))
    ctx.explore("sources", lambda: ((k, c, a) for k in ("stream", "missing", "bytes") for c in range(len(CONF)) for a in range(len(FILES))), f_src)
