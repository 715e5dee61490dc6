"""C26: the programs that come with the library do what the library does."""
import contextlib, io, itertools, os, re, runpy, shutil, sys, tempfile
from mc.core import check, Skip
from checks.c19 import Dic, quote, lst
from checks.dicbuild import HEAD, cat, item

LABEL = {"type": "validate_item_type", "esd": "validate_item_esd", "enum": "validate_item_enum", "range": "validate_enum_range", "loop": "validate_looping"}


def run(ctx):
    ctx.rule = ('a case is (command line, dictionaries, data files): each program is run as a user runs it and what it prints or writes is compared with what a reference computes from the same files')
    import CifFile
    where = os.path.join(os.path.dirname(CifFile.__file__), "Programs")

    def program(name, *args):
        """run one program as a user does; returns what it prints, and the exit code"""
        out, argv = io.StringIO(), sys.argv
        sys.argv = [os.path.join(where, name)] + list(args)
        code = 0
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_path(sys.argv[0], run_name="__main__")
        except SystemExit as e:
            code = e.code
        except Exception as e:
            code = repr(e)
        finally:
            sys.argv = argv
        return out.getvalue(), code

    @contextlib.contextmanager
    def folder(files):
        old, d = os.getcwd(), tempfile.mkdtemp(prefix="mc26.")
        try:
            os.chdir(d)
            for n, t in files.items():
                if os.path.dirname(n):
                    os.makedirs(os.path.dirname(n), exist_ok=True)
                with open(n, "w", newline="") as f:
                    f.write(t)
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d)

    # ---- validate_cif ---------------------------------------------------------------------------
    def d(**kw):
        return dict(dict(cat="mm", list="both"), **kw)

    DICS = [
        [("_Mm_one", d(type="numb", range="0:10")), ("_mm_Two", d(type="char", enum=["a", "b"]))],
        [("_mm_one", d(type="numb", cond="esd")), ("_mm_3", d(type="numb", parent="_mm_one"))],
        [("_mm_two", d(type="char")), ("_mm_four", d(type="char", con="[A-Z]+", list="yes"))],
    ]
    BLOCKS = {
        "good": [("_mm_one", "1"), ("_mm_two", "a"), ("_mm_3", "1")],
        "range": [("_mm_one", "11"), ("_mm_3", "11")],
        "su": [("_mm_one", "1(2)"), ("_mm_two", "."), ("_mm_3", "1")],
        "words": [("_mm_one", "<x&y>"), ("_mm_two", "d"), ("_mm_3", "?")],
        "Looped": [(["_mm_one", "_mm_two"], [["1", "12", "3"], ["a", "c", "b"]]), (["_mm_3"], [["12", "3"]])],
        "other": [("_not_here", "1"), ("_mm_four", "AB"), ("_mm_three", "x")],
        "four": [(["_mm_four"], [["AB", "ab"]])],
        "empty": [],
    }

    def cif(group, names, frames):
        t = "#\\#CIF_2.0\n" if frames else "#\\#CIF_1.1\n"
        for i, (m, b) in enumerate(zip(names, group)):
            t += "%s_%s\n" % ("save" if frames and i else "data", m)
            for n, v in BLOCKS[b]:
                if isinstance(n, list):
                    t += "loop_\n%s\n" % "\n".join(n) + "".join(" ".join(map(quote, r)) + "\n" for r in zip(*v))
                else:
                    t += "%s %s\n" % (n, quote(v))
            if frames and i:
                t += "save_\n"
        return t

    def parse(text, html):
        """block -> (valid, unknown names, explanation -> names), from a report"""
        out = {}
        text = re.sub(r"\\\\?n", " ", text)
        parts = re.split(r"Block '([^']*)' is (VALID|INVALID)", text)
        for name, verdict, body in zip(parts[1::3], parts[2::3], parts[3::3]):
            unknown, errors = [], {}
            if html:
                m = re.search(r"were not found in the dictionary.*?<table>(.*?)</table>", body, re.S)
                if m:
                    unknown = re.findall(r"<td>(.*?)</td>", m.group(1))
                for e, rows in re.findall(r"<h4>(.*?):</h4>(.*?)</table>", body, re.S):
                    errors[e] = re.findall(r"<tr><td><tt>(.*?)</tt>", rows)
            else:
                head, _x, rest = body.partition("were not found in the dictionary:")
                if rest:
                    names = rest.split("data block\n", 1)[1]
                    unknown = re.match(r"(_\S+\n)*", names).group(0).split()
                for e, rows in re.findall(r"\n ([^\n]*):\n\nItem name[^\n]*\n((?:\n_[^\n]*)+)", body):
                    errors[e] = [r.split()[0] for r in rows.split("\n") if r]
            out[name] = (verdict == "VALID", sorted(unknown), {e: sorted(set(n)) for e, n in errors.items()})
        return out

    REG = ["_cifdic_dictionary.name", "_cifdic_dictionary.version", "_cifdic_dictionary.URL"]
    HOWS = ["files", "here", "registry", "default registry", "stored registry", "two candidates"]
    OPTS = {"-d": "--dict_dir", "-f": "--dict_file", "-n": "--name", "-u": "--dict-version", "-r": "--registry-loc", "-m": "--markup", "-t": "--is_dict", "-s": "--store"}

    def g_val():
        orders = [c for k in (1, 2, 3) for c in itertools.permutations(range(3), k)]
        groups = [[b] for b in BLOCKS] + [list(BLOCKS)] + ([] if ctx.quick else [list(c) for c in itertools.permutations(BLOCKS, 2)])
        many = [list(BLOCKS) * 2, ["good"] * 11, ["good"] * 10 + ["words"], ["su"] * 12]
        for o in orders:
            for g in groups + many:
                for html in (False, True):
                    for how in HOWS:
                        if how == "files" or not ctx.quick or g == list(BLOCKS):
                            for frames in (False, True):
                                if len(g) > 1 or not frames:
                                    yield (list(o), g, html, how, frames)

    def f_val(case, st):
        order, group, html, how, frames = case
        # names of the blocks; with frames, all but the first are save frames of it
        names, n = [], {}
        for b in group:
            n[b] = n.get(b, 0) + 1
            names.append(b + ("" if n[b] == 1 else str(n[b])))
        style = (len(order) + len(group) + html + HOWS.index(how)) % 2
        files = {"here/d%d.dic" % i: Dic(x).text.replace("t.dic", "dic%d" % i) for i, x in enumerate(DICS)}
        if how == "here":
            files = {os.path.basename(k): v for k, v in files.items()}
        files["in.cif"] = cif(group, names, frames)
        D = Dic([x for i in order for x in DICS[i]])
        with folder(files) as top:
            args = ["-m"] if html else []
            if frames:
                args += ["-t"]
            if how == "files":
                args += ["-d", "here"]
            if how in ("files", "here"):
                shown = [("here/" if how == "files" else "./") + "d%d.dic" % i for i in order]
                for i in order:
                    args += ["-f", "d%d.dic" % i]
            else:
                url = {(i, v): "file://%s/here/d%d.dic" % (top, i if v == "1.0" else (i + 1) % 3) for v in ("0.9", "1.0", "2.0") for i in range(3)}
                rows = ["dic%d %s %s\n" % (i, v, u) for (i, v), u in url.items()]
                if how == "two candidates":
                    rows += ["dic%d 1.0 file://%s/here/d%d.dic\n" % (i, top, (i + 1) % 3) for i in range(3)]
                register = "data_validation_dictionaries\nloop_\n%s\n%s" % ("\n".join(REG), "".join(rows))
                os.mkdir("store")
                reg = {"default registry": "cifdic.register", "stored registry": "store/reg"}.get(how, "reg")
                with open(reg, "w") as f:
                    f.write(register)
                args += ["-d", "store"]
                if how == "stored registry":
                    args += ["-r", top + "/store/reg"]
                elif how != "default registry":
                    args += ["-r", "file://%s/reg" % top]
                if style:
                    args += ["-s"]
                for i in order:
                    args += ["-n", "dic%d" % i, "-u", "1.0"]
                shown = [url[i, "1.0"] for i in order]
            if style:
                args = [OPTS.get(a, a) for a in args]
            out, code = program("validate_cif.py", *(args + ["in.cif"]))
            check(not code, "validate_cif fails", lambda: "%r: %r" % (args, code))
            # everything that is printed after the heading is the report
            got = parse(out, html)
            dics = [("" if how == "here" else "here/") + "d%d.dic" % i for i in order]
            lib = CifFile.Validate(CifFile.ReadCif("in.cif", grammar="auto"), diclist=dics, isdic=frames)
            all_ok = {m: not D.judge(BLOCKS[b]) for m, b in zip(names, group)}
            unk = {m: sorted(a.lower() for k, _v in BLOCKS[b] for a in lst(k) if not D.known(a)) for m, b in zip(names, group)}
            expected = {m.lower() for m in names if not html or len(names) <= 10 or not all_ok[m] or unk[m]}
            check(set(got) == expected, "blocks missing from the report", lambda: "%r: %r: %r" % (args, sorted(got), out[-1500:]))
            if len(names) > 10 and html:
                check("valid blocks are not reported" in out, "nothing says that valid blocks are left out", lambda: out[-500:])
            heading = out[:out.rindex("<h2>Validation results" if html else "Validation results")]
            if html:
                heading = heading[heading.index("<html>"):]
                check(re.search(r"<h1>(.*)</h1>", heading).group(1) == "Validation results for in.cif", "file not named", lambda: heading)
                listed = re.findall(r"<li>(\S*)\n", re.search(r"Dictionaries used:<ul>(.*)</ul>", heading, re.S).group(1))
                check(out.rstrip().endswith("</body></html>") and "</style><body>" in heading, "the page is not finished", lambda: out)
            else:
                m = re.search(r"Validation results for (.*)\n", heading)
                check(m and m.group(1) == "in.cif", "file not named", lambda: heading[-500:])
                check("<" not in heading[m.start():], "HTML in a text report", lambda: heading[-500:])
                m = re.search(r"File validated against following dictionaries:\n((?: +\S*\n)*)", heading[m.start():])
                check(m, "dictionaries not listed", lambda: heading[-500:])
                listed = m.group(1).split()
            check(listed == shown, "wrong dictionaries listed", lambda: "%r: %r instead of %r" % (args, listed, shown))
            for m, b in zip(names, group):
                check(lib[0][m.lower()][0] == all_ok[m], "program and library disagree", lambda: "%r %s" % (args, m))
                if m.lower() not in got:
                    continue
                want = D.judge(BLOCKS[b])
                ok, un, errors = got[m.lower()]
                check(ok == (not want), "wrong verdict", lambda: "%r: block %s is reported as %r, expected %r" % (args, b, got[m.lower()], want))
                check(un == unk[m], "wrong unknown names", lambda: "%r: block %s: %r instead of %r" % (args, b, un, unk[m]))
                byerr = {}
                for k, es in want.items():
                    for e in es:
                        byerr.setdefault(e, set()).add(k)
                check(sorted(errors.values()) == sorted(sorted(x) for x in byerr.values()), "wrong names reported", lambda: "%r: block %s: %r instead of %r" % (args, b, errors, want))
                st["valid" if ok else "invalid"] += 1
            with open("in.cif", newline="") as f:
                check(f.read() == files["in.cif"], "the file is changed", lambda: repr(args))
            if how not in ("files", "here"):
                check("found more than one candidate" in out if how == "two candidates" else "more than one" not in out, "wrong word about candidates", lambda: out[:500])
                have = {f.replace("file:", ""): open("store/" + f).read() for f in os.listdir("store")}
                want = {"d%d.dic" % i: files["here/d%d.dic" % i] for i in order}
                want["cifdic.register" if how == "default registry" else "reg"] = register
                check(have == want, "what was fetched is not what is stored", lambda: "%r: %r" % (args, {k: v[:50] for k, v in have.items()}))
                left = sorted(f for f in os.listdir(".") if os.path.isfile(f))
                check(left == sorted(["in.cif"] + [reg] * ("/" not in reg)), "files left behind", lambda: "%r: %r" % (args, left))

    ctx.explore("validate_cif", g_val, f_val)

    # ---- star2_to_cif2 ---------------------------------------------------------------------------
    SV = ["1", "'a b'", '"it\'s"', "[1,2,3]", "[1,[2,'x y'],[]]", '{"a":1,"b":[1,2]}', '{"k":{"m":\'n\'}}', "\n;many\nlines\n;\n", "?", "'''it's \"quoted\"'''", "[]", "{}", "-1.5(2)"]

    def g_star():
        for i, j in itertools.product(range(len(SV)), repeat=2):
            yield ("data", i, j)
        for i in range(len(SV)):
            for files in (0, 1, 2):
                yield ("dic", i, files)
                yield ("template", i, files)

    def plain(v):
        return [plain(x) for x in v] if isinstance(v, (list, tuple)) else {k: plain(x) for k, x in v.items()} if hasattr(v, "items") else v

    def contents(f):
        out = {}
        for b in f.keys():
            out[b.lower()] = ([(n, plain(f[b][n])) for n in sorted(f[b].keys())], sorted(sorted(x) for x in f[b].loops.values()))
        return out

    def f_star(case, st):
        kind, i, j = case
        if kind == "data":
            t = "data_A\n_q.x %s\n_q.y %s\nloop_\n_l.a\n_l.b\n1 %s\n2 %s\ndata_b\n_q.x %s\n" % (SV[i], SV[j], SV[i], SV[j], SV[j])
        else:
            t = HEAD.replace("#\\#CIF_2.0\n", "") + cat("ca", "Loop", ["k"]) + item("ca", "k", extra="_my.value %s\n" % SV[i]) + item("ca", "M", extra="_my.loop 1\n")
        files = {"in.dic": t, "text": "A new description\nof it.\n", "comment": "# What this is\n\n"}
        if kind == "template":
            files["dic_template.dic"] = "#\\#CIF_2.0\ndata_TEMPLATE\n    _dictionary.title      T\n    _definition.id         T\nsave_CA\n   _definition.id                      CA\n   _my.value     1\nsave_\nsave_ca.k\n  _my.value     1\n    _definition.id        k\nsave_\n"
        with folder(files):
            args = ["in.dic"] + (["text", "comment"][:j] if kind != "data" else [])
            out, code = program("star2_to_cif2.py", *args)
            check(not code and os.path.exists("in.dic.cif2"), "conversion fails", lambda: "%r: %r" % (t, out[-300:]))
            with open("in.dic.cif2") as f:
                new = f.read()
            check(new.startswith("#\\#CIF_2.0"), "output is not CIF2", lambda: repr(new[:100]))
            scope = {"scoping": "dictionary"}
            before = contents(CifFile.ReadCif("in.dic", grammar="STAR2", **scope))
            after = contents(CifFile.ReadCif("in.dic.cif2", grammar="2.0", **scope))
            if kind != "data" and j:
                v, loops = before["t"]
                before["t"] = ([(n, "A new description\nof it.\n" if n == "_description.text" else x) for n, x in v], loops)
                after["t"] = ([(n, "A new description\nof it.\n" if n == "_description.text" and x.rstrip("\n") == "A new description\nof it." else x) for n, x in after["t"][0]], after["t"][1])
            check(set(before) == set(after), "blocks lost or added", lambda: "%r: %r instead of %r" % (t, sorted(after), sorted(before)))
            for b in before:
                check(before[b] == after[b], "contents changed", lambda: "%r in %r: %r instead of %r" % (b, t, after[b], before[b]))
            if j == 2 and kind != "data":
                check("# What this is" in new, "comment missing", lambda: new[:300])
            else:
                check("CIF Dictionary" in new[:800] and "What this is" not in new, "no comment at the top", lambda: new[:300])
            check(sorted(os.listdir(".")) == sorted(list(files) + ["in.dic.cif2"]), "files left behind", lambda: "%r" % os.listdir("."))
            st["converted"] += 1

    ctx.explore("star2_to_cif2", g_star, f_star)

    # ---- loop_example ---------------------------------------------------------------------------
    NEED = ["_atom_site_label", "_atom_site_type_symbol", "_atom_site_fract_x", "_atom_site_fract_y", "_atom_site_fract_z"]

    def g_loop():
        for missing in [None] + list(range(5)):
            for rows in (1, 2, 3):
                for extra in (0, 1, 2):
                    for turn in range(5):
                        yield (missing, rows, extra, turn)

    def f_loop(case, st):
        missing, rows, extra, turn = case
        names = NEED[turn:] + NEED[:turn]
        apart = []
        if missing is not None:
            names.remove(NEED[missing])
            apart = [NEED[missing]]
        names = names[:2] + ["_atom_site_e%d" % i for i in range(extra)] + names[2:]
        t = "data_zero\n_x 1\ndata_some_stuff\n" + "".join("%s alone\n" % n for n in apart) + "loop_\n" + "\n".join(names) + "\n" + "".join(
            " ".join("'v%d %s'" % (r, n) for n in names) + "\n" for r in range(rows))
        with folder({"loop_example.cif": t}):
            out, code = program("loop_example.py")
            if apart:
                check(not os.path.exists("updated.cif"), "output although an item is missing", lambda: t)
                st["refused"] += 1
                return
            check(not code, "loop_example fails", lambda: "%r: %r" % (t, out))
            f = CifFile.ReadCif("updated.cif")
            check(f.keys() == ["changed"] and sorted(f["changed"].keys()) == sorted(NEED), "wrong output", lambda: "%r: %r" % (t, f.keys()))
            check([list(x) for x in f["changed"].loops.values()] == [NEED], "wrong loop", lambda: "%r: %r" % (t, f["changed"].loops))
            for n in NEED:
                check(f["changed"][n] == ["v%d %s" % (r, n) for r in range(rows)], "wrong values", lambda: "%r: %r" % (t, f["changed"][n]))
            with open("updated.cif") as g:
                check("# This file has been updated" in g.read(), "comment missing", lambda: t)

    ctx.explore("loop_example", g_loop, f_loop)
