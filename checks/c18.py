"""C18: imports into a DDLm dictionary bring in exactly what they ask for."""
import io, itertools, os, shutil, tempfile
from mc.core import check, Skip
from checks.dicbuild import *


def templ(title, body, cls="Template"):
    return HEAD.replace("data_T", "data_" + title).replace("title T", "title " + title).replace("class Instance", "class " + cls).split("save_HEADCAT")[0] + body


def frame(name, text):
    return "save_%s\n%ssave_\n" % (name, text)


# attributes of the frames that can be imported: name -> value, a list being a loop column
FRAMES = {
    ("t1.dic", "fa"): {"_units.code": "ua", "_Enumeration.range": "0:1"},
    ("t1.dic", "Fb"): {"_enumeration_set.state": ["a", "b"], "_enumeration_set.detail": ["x y", "."]},
    ("t1.dic", "fc"): {"_type.purpose": "Number"},                            # and everything of t2: fd
    ("t2.dic", "fd"): {"_description_example.case": ["1", "2", "3"], "_enumeration.default": "c"},
    ("t2.dic", "fe"): {"_units.code": "ue"},
    ("t1.dic", "fg"): {"_type.source": "Derived"},                            # and t2: fe, fd
}
INNER = {("t1.dic", "fc"): [("t2.dic", "fd")], ("t1.dic", "fg"): [("t2.dic", "fe"), ("t2.dic", "fd")]}


def attrs(a):
    out, loops = "", {}
    for n, v in a.items():
        if isinstance(v, list):
            loops.setdefault(n.split(".")[0], []).append((n, v))
        else:
            out += "%s '%s'\n" % (n, v)
    for cols in loops.values():
        out += "loop_\n" + "".join("%s\n" % n for n, v in cols)
        for row in zip(*[v for n, v in cols]):
            out += " ".join("'%s'" % x if " " in x else x for x in row) + "\n"
    return out


def ref(file, save, **kw):
    return "{'file':'%s' 'save':'%s'%s}" % (file, save, "".join(" '%s':'%s'" % (k, v) for k, v in kw.items() if v is not None))


def imp(refs):
    return "_import.get [%s]\n" % " ".join(refs)


def run(ctx):
    ctx.rule = ('a case is a set of dictionary files (which definitions each has, which import attributes, frames or whole categories of which others, in which mode, with which treatment of duplicates and missing frames) and a way of opening them; the definitions, attributes, parents and names found, or the refusal, are compared with a reference that follows the import directives')
    import CifFile
    from CifFile import StarFile
    REFUSE = (KeyError, ValueError, StarFile.StarError, CifFile.CifError)

    def write(where, files):
        for n, t in files.items():
            with open(os.path.join(where, n), "w") as f:
                f.write(t)

    def opened(files, main, **kw):
        where = tempfile.mkdtemp(prefix="mc18.")
        try:
            write(where, files)
            return CifFile.CifDic(os.path.join(where, main), grammar="2.0", **kw)
        finally:
            shutil.rmtree(where)

    # ------------------------------------------------------------------ attributes
    def everything(fr):
        out = dict(FRAMES[fr])
        for i in INNER.get(fr, ()):
            out.update(everything(i))
        return out
    T = {f: templ("TT", "".join(frame(s, (imp([ref(*i) for i in INNER[f, s]]) if (f, s) in INNER else "") + attrs(a)) for (g, s), a in FRAMES.items() if g == f)) for f in ("t1.dic", "t2.dic")}
    OWN = ({}, {"_units.code": "own"}, {"_enumeration.default": "own", "_Type.Purpose": "Link"})
    MODES = ((True, "All"), (False, "All"), (True, "Contents"), (False, "contents"), (True, "Full"), (False, "Full"), (True, "No"))

    def g_contents():
        one = [(f, s, m) for f, s in list(FRAMES) + [("t1.dic", "nope")] for m in (None, "Exit", "Ignore")]
        few = [(f, s, None) for f, s in FRAMES] + [("t1.dic", "nope", m) for m in (None, "Exit", "Ignore")]
        for own in OWN:
            for h, di in MODES:
                for r in one:
                    for mode in (None, "Contents", "contents"):
                        yield own, h, di, (r,), mode
                for n in (2,) if ctx.quick else (2, 3):
                    for rr in itertools.product(few, repeat=n):
                        yield own, h, di, rr, None

    def f_contents(case, st):
        own, heavy, di, refs, mode = case
        main = HEAD + cat("m") + item("m", "x", extra=imp([ref(f, s, mode=mode, miss=m) for f, s, m in refs]) + attrs(own)).replace(
            "_type.purpose Number\n_type.source Derived\n", "") + item("m", "y")
        want, clash, refuse = {k.lower(): v for k, v in own.items()}, False, False
        if di.lower() in ("all", "contents"):
            for f, s, m in refs:
                if (f, s) not in FRAMES:
                    refuse = refuse or m != "Ignore"
                    continue
                if refuse:
                    break
                for k, v in everything((f, s)).items():
                    if k.lower() in want:
                        clash = True
                    want[k.lower()] = v
        if clash and not heavy:
            raise Skip()              # which of two values a dynamic import shows is not decided
        lab = lambda: "own %r, imports %r, mode %s, heavy %s, do_imports %s" % (own, refs, mode, heavy, di)
        try:
            d = opened(dict(T, **{"main.dic": main}), "main.dic", heavy=heavy, do_imports=di, do_dREL=False)
        except REFUSE:
            check(clash or refuse, "refused", lambda: "%s: refused" % lab())
            st["refused"] += 1
            return
        check(not clash and not refuse, "accepted", lambda: "%s: accepted" % lab())
        st["loaded"] += 1
        names = {k.lower() for a in list(FRAMES.values()) + list(OWN) for k in a}
        b = d["_m.x"]
        for n in names:
            for s in (n, n.upper()):
                try:
                    got = b[s]
                except KeyError:
                    got = None
                w = want.get(n)
                check(got == w and (type(got) is type(w) or isinstance(w, list)), "attribute", lambda: "%s: %s is %r instead of %r" % (lab(), s, got, w))
                check(b.get(s) == w and b.has_key(s) == (w is not None) and (not heavy or (s in b) == (w is not None)), "attribute", lambda: "%s: %s is %r, present %r and %r" % (lab(), s, b.get(s), b.has_key(s), s in b))
        if heavy:
            rest = [k for k in b.keys() if k in names]
            check(sorted(rest) == sorted(want) and sorted(k.lower() for k in b.block) == sorted(b.keys()), "attribute", lambda: "%s: the attributes are %r" % (lab(), b.keys()))
            for n, v in want.items():
                mates = sorted(m for m in want if isinstance(want[m], list) and m.split(".")[0] == n.split(".")[0]) if isinstance(v, list) else []
                got = sorted(x.lower() for x in b.GetLoop(n).keys()) if b.FindLoop(n) >= 0 else []
                check(got == mates, "loop", lambda: "%s: %s is in a loop of %r, not of %r" % (lab(), n, got, mates))
        check(sorted(d.keys()) == ["_m.x", "_m.y", "headcat", "m"], "definitions", lambda: "%s: the definitions are %r" % (lab(), sorted(d.keys())))
        check(not any(d["_m.y"].has_key(n) for n in names if not n.startswith("_type.")), "attribute", lambda: "%s: another definition has changed" % lab())
    ctx.explore("attributes", g_contents, f_contents)

    # ------------------------------------------------------------------ whole definitions
    def full_body(tag, inner="", head="IMPHEAD", p="p"):
        return (frame(head, "_definition.id %s\n_definition.scope Category\n_definition.class Head\n_description.text '%s'\n_name.category_id LIB\n_name.object_id %s\n" % (head, tag, head) + inner)
                + cat(p, "Loop", ["k"], parent=head).replace('"x"', '"%s"' % tag) + item(p, "k", "Code", "Key", "Assigned").replace("'x'", "'%s'" % tag)
                + item(p, "X").replace("'x'", "'%s'" % tag)
                + cat("Q", parent=p).replace('"x"', '"%s"' % tag) + item("Q", "y", extra=imp([ref("t1.dic", "fa")])).replace("'x'", "'%s'" % tag)
                + cat("r", parent=head).replace('"x"', '"%s"' % tag) + item("r", "z").replace("'x'", "'%s'" % tag))
    UNDER = {"IMPHEAD": {"p": "IMPHEAD", "_p.k": "p", "_p.x": "p", "q": "p", "_q.y": "Q", "r": "IMPHEAD", "_r.z": "r"},
             "p": {"p": None, "_p.k": "p", "_p.x": "p", "q": "p", "_q.y": "Q"}, "Q": {"q": None, "_q.y": "Q"}, "r": {"r": None, "_r.z": "r"}, "p.X": {"_p.x": None}}
    LIB3 = ("save_L3\n_definition.id L3\n_definition.scope Category\n_definition.class Head\n_description.text 'lib'\n_name.category_id LIB3\n_name.object_id L3\nsave_\n"
            + cat("s", parent="L3").replace('"x"', '"lib"') + item("s", "T").replace("'x'", "'lib'"))

    def g_full():
        for into in ("HEADCAT", "own"):
            for save in ("IMPHEAD", "p", "Q", "r", "nope", "p.X"):
                if into == "own" and save == "IMPHEAD":
                    continue                       # a head in an ordinary category: not decided
                for have in itertools.chain(*[itertools.combinations(("p", "_p.X", "Q", "r"), n) for n in (0, 1, 2)]):
                    for dupl in (None, "Exit", "Ignore", "Replace"):
                        for miss in (None, "Exit", "Ignore"):
                            if save != "nope" and miss is not None or save == "nope" and (dupl or have):
                                continue
                            for di in ("All", "Full", "Contents"):
                                for mode in ("Full", "full"):
                                    for heavy in (True, False):
                                        yield into, save, have, dupl, miss, di, mode, heavy, None
                                        if mode == "Full" and len(have) < 2:
                                            for extra in ("before", "after", "chain", "two"):
                                                yield into, save, have, dupl, miss, di, mode, heavy, extra

    def f_full(case, st):
        into, save, have, dupl, miss, di, mode, heavy, extra = case
        get, fa = ref("lib.dic", save, mode=mode, dupl=dupl, miss=miss), ref("t1.dic", "fa")
        get = imp([fa, get] if extra == "before" else [get, fa] if extra == "after" else [get, ref("lib3.dic", "L3" if into == "HEADCAT" else "s", mode=mode)] if extra == "two" else [get])
        main = HEAD if into != "HEADCAT" else HEAD.replace("_name.object_id HEADCAT\n", "_name.object_id HEADCAT\n" + get)
        main += cat("own", extra=get if into == "own" else "") + item("own", "a")
        want = {"headcat": ("T", "head"), "own": ("HEADCAT", "x"), "_own.a": ("own", "x")}
        for h in have:
            if h == "_p.X":
                main += item("p", "X", extra="_units.code mine\n").replace("'x'", "'mine'")
                want["_p.x"] = ("p", "mine")
            else:
                main += cat(h).replace('"x"', '"mine"')
                want[h.lower()] = ("HEADCAT", "mine")
        files = {"t1.dic": T["t1.dic"], "t2.dic": T["t2.dic"], "lib.dic": templ("LIB", full_body("lib", imp([ref("lib3.dic", "L3", mode="Full")]) if extra == "chain" else ""), "Reference"),
                 "lib3.dic": templ("LIB3", LIB3, "Reference"), "main.dic": main}
        refuse, unsure = False, set()
        there = save in have or "_" + save in have
        target = save.lower() if save != "p.X" else "_p.x"
        if di != "Contents":
            if save == "nope":
                refuse = miss != "Ignore"
            elif there and dupl in (None, "Exit"):
                refuse = True
            elif not (there and dupl == "Ignore"):
                for n, c in UNDER[save].items():
                    if n in want and not (n == target and dupl == "Replace"):
                        if n == target or save != "IMPHEAD" and dupl != "Ignore":
                            unsure.add(n)          # clashes below the frame that is asked for
                        continue
                    want[n] = (into if c is None or c == "IMPHEAD" else c, "lib")
                if extra == "chain" and save == "IMPHEAD":
                    want.update({"s": (into, "lib"), "_s.t": ("s", "lib")})
            if extra == "two" and not refuse:
                want.update({"s": (into, "lib"), "_s.t": ("s", "lib")})
        lab = lambda: "import of %s into %s, there are %r, dupl %s, miss %s, mode %s, heavy %s, do_imports %s" % (save, into, have, dupl, miss, mode, heavy, di)
        try:
            d = opened(files, "main.dic", heavy=heavy, do_imports=di, do_dREL=False)
        except REFUSE as e:
            check(refuse, "refused", lambda: "%s: refused: %s" % (lab(), e))
            st["refused"] += 1
            return
        check(not refuse, "accepted", lambda: "%s: accepted" % lab())
        st["loaded"] += 1

        def same(d, lab, listed):
            if listed:
                check(sorted(d.keys()) == sorted(want), "definitions", lambda: "%s: the definitions are %r, not %r" % (lab(), sorted(d.keys()), sorted(want)))
            for n in set(want) | set(UNDER["IMPHEAD"]) | {"imphead", "l3", "s", "_s.t"}:
                for s in (n, n.upper()):
                    try:
                        b = d[s]
                    except KeyError:
                        b = None
                    if n in ("imphead", "l3") and not listed:
                        continue
                    check((b is not None) == (n in want), "definition", lambda: "%s: %s is %s" % (lab(), s, "missing" if b is None else "there"))
                    if listed:
                        check((s in d) == (n in want), "definition", lambda: "%s: %s is %s" % (lab(), s, "there" if s in d else "missing"))
                    if b is None or n in unsure:
                        continue
                    if listed or want[n][0] not in ("HEADCAT", "own"):
                        check(b["_name.category_id"].lower() == want[n][0].lower(), "category", lambda: "%s: %s is in %s instead of %s" % (lab(), s, b["_name.category_id"], want[n][0]))
                    check(b["_description.text"] == want[n][1], "content", lambda: "%s: %s is %r instead of %r" % (lab(), s, b["_description.text"], want[n][1]))
                    if n == "_q.y" and di == "All":
                        check(b.get("_units.code") == "ua" and b.get("_enumeration.range") == "0:1", "content", lambda: "%s: imports of %s are not followed" % (lab(), s))
        def held(n):
            return n == "headcat" or want[n][0].lower() in want and held(want[n][0].lower())
        same(d, lab, heavy)
        got = d[into].get("_units.code"), d[into].get("_enumeration.range")
        check(got == (("ua", "0:1") if extra in ("before", "after") and di != "Full" else (None, None)), "content", lambda: "%s: the attributes of %s are %r" % (lab(), into, got))
        if heavy:
            if di != "Contents":
                check(sorted(x.lower() for x in d.ddlm_danglers()) == sorted(n for n in want if not held(n)), "listing", lambda: "%s: %r are not connected" % (lab(), d.ddlm_danglers()))
            out = d.WriteOut()
            again = load_text(out)
            same(again, lambda: lab() + ", written and read", True)

    def load_text(text):
        return CifFile.CifDic(CifFile.ReadCif(io.StringIO(text), grammar="2.0"), grammar="2.0", do_minimum=True)
    ctx.explore("whole definitions", g_full, f_full)
