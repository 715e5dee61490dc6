"""C19: validation against a DDL1 dictionary reports exactly the constraints that are violated."""
import io, itertools, os, re
from mc.core import check, Skip

TOP = "data_on_this_dictionary\n_dictionary_name t.dic\n_dictionary_version 1.0\n"
SPECIAL = (".", "?")
NUMB = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)(\((?P<a>\d+)\))?([eEdD][+-]?\d+)?(\((?P<b>\d+)\))?\Z")


def quote(v):
    for q in ("'", '"'):
        if q not in v and "\n" not in v:
            return q + v + q
    return "\n;" + v + "\n;\n"


def attr(tag, v):
    """A dictionary attribute; a list becomes a loop, also when it has one element"""
    if v is None:
        return ""
    if isinstance(v, list):
        return "loop_\n%s\n%s\n" % (tag, " ".join(map(quote, v)))
    return "%s %s\n" % (tag, quote(v))


def definition(names, d):
    names = names if isinstance(names, list) else [names]
    t = "data_%s\n" % names[0][1:].replace("[]", "")
    t += attr("_name", names if len(names) > 1 else names[0])
    for tag, key in (("_category", "cat"), ("_type", "type"), ("_type_conditions", "cond"), ("_type_construct", "con"),
                     ("_enumeration", "enum"), ("_enumeration_range", "range"), ("_list", "list"), ("_list_reference", "ref"),
                     ("_list_uniqueness", "uniq"), ("_list_link_parent", "parent"), ("_list_link_child", "child")):
        t += attr(tag, d.get(key))
    rel = d.get("related")
    if rel and len(rel) == 1 and not d.get("relloop"):
        t += "_related_item %s\n_related_function %s\n" % (quote(rel[0][0]), rel[0][1])
    elif rel:
        t += "loop_ _related_item _related_function\n" + "".join("%s %s\n" % (quote(a), b) for a, b in rel)
    return t


def lst(v):
    return [] if v is None else v if isinstance(v, list) else [v]


def number(v):
    m = NUMB.match(v)
    if m and not (m.group("a") and m.group("b")):
        su = m.group("a") or m.group("b")
        return float(re.sub(r"\(\d+\)", "", v).replace("d", "e").replace("D", "e")), su
    return None


class Dic(object):
    """What the definitions mean, worked out from the same table the dictionary text is made from"""
    def __init__(self, defs):
        self.d, self.keys = {}, {}
        for names, d in defs:
            for n in lst(names):
                self.d[n.lower()] = d
                if d.get("uniq"):
                    k = self.keys.setdefault(d["cat"], set())
                    k |= {n.lower(), d["uniq"].lower()}
        self.text = TOP + "".join(definition(n, d) for n, d in defs)

    def known(self, n):
        return n.lower() in self.d

    def others(self, n, kinds):
        """names that can stand for n"""
        return [a.lower() for a, f in self.d.get(n.lower(), {}).get("related", []) if f in kinds]

    def item(self, n, value):
        """constraints on one item on its own; value is a string or a list of strings"""
        d, bad = self.d[n.lower()], set()
        values = [v for v in lst(value) if v not in SPECIAL]
        typ = d.get("type")
        if typ == "numb" and d.get("cond") != "esd" and any(number(v) and number(v)[1] for v in values):
            bad.add("validate_item_esd")
        if d.get("con"):
            if not all(re.match("(?:%s)\\Z" % d["con"], v) for v in values):
                bad.add("validate_item_type")
        elif typ == "numb":
            if not all(number(v) for v in values):
                bad.add("validate_item_type")
        if d.get("enum") is not None and not all(v in lst(d["enum"]) for v in values):
            bad.add("validate_item_enum")
        if d.get("range"):
            lo, hi = [float(x) if x else None for x in d["range"].split(":")]
            for v in values:
                x = number(v)
                if x is None or (lo is not None and x[0] < lo) or (hi is not None and x[0] > hi):
                    bad.add("validate_enum_range")
        want = d.get("list") or "no"
        if (want == "yes" and not isinstance(value, list)) or (want == "no" and isinstance(value, list)):
            bad.add("validate_looping")
        return bad

    def loop(self, names):
        """constraints on the names that share a loop"""
        names = [n.lower() for n in names]
        bad = set()
        if len({self.d[n]["cat"] for n in names}) > 1:
            bad.add("validate_loop_membership")
        for n in names:
            for r in lst(self.d[n].get("ref")):
                r = r.lower()
                if r.endswith("_"):
                    if not any(m.startswith(r) for m in names):
                        bad.add("validate_loop_references")
                elif r not in names and not set(self.others(r, ("alternate", "replace"))) & set(names):
                    bad.add("validate_loop_references")
        return bad

    def together(self, n, block):
        """constraints on one item that need the rest of the block; block: lower-case name -> value"""
        d, bad = self.d[n.lower()], set()
        if set(self.others(n, ("replace", "alternate_exclusive"))) & set(block):
            bad.add("validate_exclusion")
        value = block[n.lower()]
        for p in lst(d.get("parent"))[:1]:
            p = p.lower()
            here = [q for q in [p] + self.others(p, ("alternate", "replace")) if q in block]
            own = {v for v in lst(value) if v not in SPECIAL}
            if (here and own - set(lst(block[here[0]]))) or (not here and own):
                bad.add("validate_parent")
        for c in lst(d.get("child")):
            for q in [c.lower()] + self.others(c, ("alternate", "replace")):
                if q in block and {v for v in lst(block[q]) if v not in SPECIAL} - set(lst(value)):
                    bad.add("validate_child")
        key = self.keys.get(d["cat"], set())
        if n.lower() in key and isinstance(value, list):
            cols = [block.get(k) for k in sorted(key)]
            if not all(isinstance(c, list) and len(c) == len(value) for c in cols):
                bad.add("validate_uniqueness")
            else:
                rows = list(zip(*cols))
                if len(set(rows)) < len(rows):
                    bad.add("validate_uniqueness")
        return bad

    def judge(self, entries):
        """entries: (name, value) or (list of names, list of columns) -> {name: set of violated constraints}"""
        block = {}
        for n, v in entries:
            for a, b in zip(n, v) if isinstance(n, list) else [(n, v)]:
                block[a.lower()] = list(b) if isinstance(n, list) else b
        block = {n: v for n, v in block.items() if self.known(n)}
        out = {n: self.item(n, v) | self.together(n, block) for n, v in block.items()}
        for n, _v in entries:
            if isinstance(n, list):
                kn = [a.lower() for a in n if self.known(a)]
                if kn:
                    out[kn[0]] = out[kn[0]] | self.loop(kn)
        return {n: b for n, b in out.items() if b}


def run(ctx):
    ctx.rule = ('a case is (definitions, data block): every combination of the constraints in the definitions with every arrangement of values, names, loops, parents and children up to the bound; the set of checks reported for every item is compared with a reference that reads the constraints')
    import CifFile
    made = {}

    def dic(key, defs):
        if key not in made:
            D = Dic(defs)
            made[key] = (D, CifFile.CifDic(CifFile.ReadCif(io.StringIO(D.text), grammar="1.1"), do_dREL=False))
        return made[key]

    def blk(entries, cls=CifFile.CifBlock):
        b = cls()
        for n, v in entries:
            if isinstance(n, list):
                b.AddCifItem(([n], [[list(c) for c in v]]))
            else:
                b[n] = v
        return b

    def text(entries):
        t = ""
        for n, v in entries:
            if isinstance(n, list):
                t += "loop_\n%s\n" % "\n".join(n) + "".join(" ".join(map(quote, r)) + "\n" for r in zip(*v))
            else:
                t += "%s %s\n" % (n, quote(v))
        return t

    def snapshot(b):
        return [(n, list(b[n]) if isinstance(b[n], list) else b[n]) for n in b.keys()], sorted(map(tuple, b.loops.values()))

    def seen(results):
        return {k.lower(): {r[0] for r in v} for k, v in results.items()}

    def agree(st, key, D, d, entries):
        """validate one block in every way there is"""
        want = D.judge(entries)
        unknown = {a.lower() for n, _v in entries for a in lst(n) if not D.known(a)}
        f = CifFile.CifFile()
        f["Blk"] = blk(entries)
        before = snapshot(f["blk"])
        v, n = CifFile.Validate(f, dic=d)
        check(set(v) == {"blk"} or set(v) == {"Blk"}, "wrong blocks reported", lambda: "%r" % (list(v),))
        ok, res = list(v.values())[0]
        got = seen(res)
        bad = sorted({("too strict " if c in got.get(x, ()) else "too lax ") + c for x in set(got) | set(want) for c in got.get(x, set()) ^ want.get(x, set())})
        check(got == want, "%s: wrong verdict of %s" % (key, ",".join(bad)), lambda: "%r: reported %r instead of %r" % (text(entries), got, want))
        check(ok == (not want), "overall verdict disagrees", lambda: "%r: %r with %r" % (text(entries), ok, got))
        check({x.lower() for x in list(n.values())[0]} == unknown, "unknown names wrong", lambda: "%r: %r" % (text(entries), n))
        check(snapshot(f["blk"]) == before, "validation changes the block", lambda: "%r: %r -> %r" % (text(entries), before, snapshot(f["blk"])))
        r = CifFile.CifFile_module.ValidationResult((v, n))
        check(r.is_valid() == (not want) and r.is_valid(list(v)[0]) == (not want), "ValidationResult.is_valid", lambda: text(entries))
        check(r.has_no_match_items() == bool(unknown), "ValidationResult.has_no_match_items", lambda: text(entries))
        rep = r.report(False)
        check(all(c.lower() in rep.lower() for c in want) and all(u in rep.lower() for u in unknown), "report leaves something out", lambda: "%r: %r" % (text(entries), rep))
        st["invalid" if want else "valid"] += 1
        return want

    # ---- one item on its own -------------------------------------------------------------
    DEFS1 = []
    for typ, cond, con, rng, enum in itertools.product(("char", "numb"), (None, "none", "esd"), (None, "[A-Z]{2}", "a|ab|ab c", r"\d+-\d+(-\d\d)?", r"\d+(\.\d*)?(\(\d\))?"),
                                                       (None, "0:", ":10", "0:10", "-1.5:1.5", "1:1", "0.5:1E1"), (None, "a", ["a"], ["ab", "1", "1.0"])):
        if (typ == "char") and (cond == "esd" or rng) or (con and (rng or enum or (typ == "numb" and not con.startswith(r"\d")))) or (enum and rng and rng != "0:10"):
            continue
        DEFS1.append(dict(cat="c", type=typ, cond=cond, con=con, range=rng, enum=enum, list="both"))
    for li, typ in itertools.product((None, "no", "yes", "both"), ("char", "numb", None)):
        DEFS1.append(dict(cat="c", type=typ, list=li))
    NAMED1 = [("_c_Item%d" % i, d) for i, d in enumerate(DEFS1)]
    VALUES = [".", "?", "", "1", "-1", "+1", "1.", ".5", "1.5", "1.50", "-1.5", "+1.5001", "0", "-0.0", "10", "10.0", "10.01", "1e1", "1E+1", "1.5d0", "1.5(2)",
              "1.5(2)e1", "1.5e1(2)", "1.5(2)e1(2)", "(2)", "1e", "1.0.0", "--1", "1 ", " 1", "a", "A", "ab", "ab c", "abc", "AB", "ABC", "12-3", "12-3-45", "12-3-4",
              "x\n1", "AB\nx", "many\nlines of\ntext", "..", "?.", "_tag", "data_"]

    NUMERALS = ["".join(x) for x in itertools.product(("", "-", "+"), ("0", "7", "12.", ".5", "3.25", "."), ("", "(1)", "(12)", "()"), ("", "e2", "E-1", "d+1", "e"), ("", "(3)"))]

    def gen1():
        for i in range(len(NAMED1)):
            for v in VALUES:
                yield ("item", i, [v], False)
            for v in VALUES if not ctx.quick else VALUES[::6] + ["1", "a", "1.5(2)"]:
                yield ("item", i, [v], True)
                yield ("item", i, ["1", v], True)
            if DEFS1[i].get("type") == "numb":
                for v in NUMERALS:
                    yield ("item", i, [v], False)

    def fn1(case, st):
        _k, i, vals, looped = case
        D, d = dic("items", NAMED1)
        n = NAMED1[i][0]
        n = (n, n.upper(), n.lower())[i % 3]
        agree(st, "item", D, d, [([n], [vals])] if looped else [(n, vals[0])])

    ctx.explore("single items: every kind of definition, every value, alone and in loops", gen1, fn1)
    # ---- names in a loop ---------------------------------------------------------------------
    LOOPS = [
        ("_Aa_Id", dict(cat="aa", type="char", list="yes")),
        ("_Aa_Alt", dict(cat="aa", type="char", list="yes", related=[("_Aa_Id", "alternate")])),
        ("_Aa_Old", dict(cat="aa", type="char", list="yes", related=[("_Aa_New", "replace"), ("_aa_alt", "associated_value")])),
        ("_Aa_New", dict(cat="aa", type="char", list="yes", related=[("_Aa_Old", "alternate_exclusive")])),
        ("_Aa_x", dict(cat="aa", type="numb", list="yes", ref="_Aa_Old")),
        (["_Aa_y", "_Aa_Z"], dict(cat="aa", type="numb", list="both", ref=["_Aa_Id", "_aa_x"])),
        ("_Aa_stem", dict(cat="aa", type="numb", list="yes", ref="_Bb_atom_")),
        (["_Bb_Atom_1", "_Bb_Atom_2"], dict(cat="aa", type="numb", list="yes", ref=["_bb_Atom_", "_Aa_undefined"])),
        ("_Cc_id", dict(cat="cc", type="char", list="yes", ref="_cc_id")),
        ("_Cc_o", dict(cat="cc", type="char", list="no", related=[("_Cc_id", "alternate")])),
    ]
    LNAMES = [a for n, _d in LOOPS for a in lst(n)] + ["_not_there"]

    def gen2():
        sizes = (1, 2, 3) if ctx.quick else (1, 2, 3, 4)
        for k in sizes:
            for c in itertools.combinations(LNAMES, k):
                for s in range(k if k < 3 else 1):
                    for up in (False, True):
                        yield ("names", c[s:] + c[:s], up)
        for a, b in itertools.permutations(LNAMES, 2):
            yield ("apart", a, b)

    def fn2(case, st):
        D, d = dic("loops", LOOPS)
        if case[0] == "names":
            names = [n.upper() if case[2] else n for n in case[1]]
            agree(st, "loop", D, d, [(names, [["1", "2"]] * len(names))])
        else:
            agree(st, "loop", D, d, [([case[1]], [["1"]]), ([case[2]], [["1", "2"]])])
            agree(st, "loop", D, d, [(case[1], "1"), (case[2], ".")])

    ctx.explore("which names share a loop or a block", gen2, fn2)

    # ---- parents, children and unique values -----------------------------------------------------
    FAM = [
        ("_Pp_Id", dict(cat="pp", list="both", child=["_Qq_id", "_Qq_Other"])),
        ("_Pp_alt", dict(cat="pp", list="both")),
        ("_Qq_id", dict(cat="qq", list="both", parent="_Pp_Id")),
        ("_Qq_Other", dict(cat="qq", list="both", parent=["_Pp_Id"], related=[("_Qq_new", "alternate")])),
        ("_Qq_new", dict(cat="qq", list="both")),
        ("_Rr_Id", dict(cat="rr", list="both", related=[("_Pp_Alt", "replace")])),
        ("_Ss_id", dict(cat="ss", list="both", parent="_Rr_Id")),
        ("_Ss_two", dict(cat="ss", list="both", parent="_Rr_Id")),
        ("_Tt_id", dict(cat="tt", list="both", parent="_gone_id", child="_gone_too")),
    ]
    COLS = [["a"], ["b"], ["a", "b"], [".", "a"], ["?"]]

    def gen3():
        names = [n for n, _d in FAM]
        vals = ["a", "."] + COLS
        for pair in itertools.permutations(names, 2):
            for vs in itertools.product(vals, repeat=2):
                yield ("fam", [list(x) for x in zip(pair, vs)])
        few = ["b", ["a"], ["?", "a"]] if ctx.quick else ["a", "b", ".", ["a"], ["a", "b"], ["?", "a"]]
        for trip in itertools.combinations(names, 3):
            for vs in itertools.product(few, repeat=3):
                yield ("fam", [list(x) for x in zip(trip, vs)])
        for n in names:
            for v in vals:
                yield ("fam", [[n, v]])

    def fn3(case, st):
        D, d = dic("families", FAM)
        agree(st, "family", D, d, [([n], [v]) if isinstance(v, list) else (n, v) for n, v in case[1]])

    ctx.explore("parents and children", gen3, fn3)

    UNIQ = [
        ("_Kk_Label", dict(cat="kk", list="yes", uniq="_Kk_Element")),
        ("_Kk_Element", dict(cat="kk", list="both")),
        ("_Kk_text", dict(cat="kk", list="yes")),
        ("_Ll_Num", dict(cat="ll", list="yes", uniq="_Ll_Num")),
        ("_Ll_v", dict(cat="ll", list="yes")),
    ]

    def gen4():
        vs = ["a", "a b", "b", "."]
        for k in (1, 2, 3):
            for c in itertools.product(vs[:4 if k < 3 else 2], repeat=k):
                yield ("uniq", [["_Ll_Num"], [list(c)]])
                yield ("uniq", [["_Ll_v", "_Ll_Num"], [["a"] * k, list(c)]])
                yield ("uniq", [["_Kk_Label"], [list(c)]])
                yield ("uniq", [["_kk_element"], [list(c)]])
                yield ("uniq2", list(c))
        cells = ["a", "b", "a b", "b c", "c"]
        for k in (1, 2) if ctx.quick else (1, 2, 3):
            for p in itertools.product(itertools.product(cells if k < 3 else cells[:3], repeat=2), repeat=k):
                cols = [list(c) for c in zip(*p)]
                yield ("uniq", [["_Kk_Label", "_Kk_Element"], cols])
                yield ("uniq", [["_KK_ELEMENT", "_kk_text", "_Kk_Label"], [cols[0], ["z"] * k, cols[1]]])

    def fn4(case, st):
        D, d = dic("unique", UNIQ)
        if case[0] == "uniq2":
            agree(st, "unique", D, d, [(["_Kk_Label"], [case[1]]), ("_Kk_Element", "abc")])
            agree(st, "unique", D, d, [(["_Kk_Label"], [case[1]]), (["_Kk_Element"], [["a"]])])
        else:
            agree(st, "unique", D, d, [case[1]])

    ctx.explore("unique values", gen4, fn4)

    # ---- validated blocks --------------------------------------------------------------------------
    MIX = [
        ("_Mm_Id", dict(cat="mm", type="char", list="both", child="_Nn_One")),
        ("_Mm_n", dict(cat="mm", type="numb", list="both", range="0:10")),
        ("_Nn_One", dict(cat="nn", type="char", list="both", parent="_Mm_Id")),
        ("_Nn_Two", dict(cat="nn", type="char", list="both", parent="_Mm_Id", enum=["a", "b"])),
        ("_Nn_Three", dict(cat="nn", type="char", list="both", parent="_Mm_Id")),
    ]
    ENT = [("_Mm_Id", "a"), (["_Mm_id"], [["a", "b"]]), (["_Mm_id", "_mm_N"], [["b", "c"], ["1", "2.5"]]), (["_mm_id", "_Mm_n"], [["a"], ["11"]]), ("_mm_n", "x"),
           (["_Nn_One", "_nn_two"], [["a", "b"], ["b", "."]]), (["_Nn_One", "_nn_two"], [["a", "a"], ["b", "a"]]), (["_nn_two", "_nn_three"], [["a"], ["c"]]),
           (["_nn_one", "_nn_three"], [[".", "?"], ["a", "b"]]), ("_Nn_One", "b"), ("_nn_three", "a"), ("_other", "q"), (["_nn_one", "_mm_n"], [["a"], ["1"]])]

    def names_of(e):
        return {a.lower() for n, _v in e for a in lst(n)}

    def gen5():
        for k in (1, 2, 3):
            for c in itertools.permutations(range(len(ENT)), k) if k < 3 else itertools.combinations(range(len(ENT)), k):
                e = [ENT[i] for i in c]
                if len(names_of(e)) == sum(len(lst(n)) for n, _v in e):
                    yield ("valid", list(c))

    def fn5(case, st):
        D, d = dic("mixed", MIX)
        e = [ENT[i] for i in case[1]]
        want = agree(st, "block", D, d, e)
        # the verdict is the same for text that is read, and whichever way it is asked for
        t = "#\\#CIF_1.1\ndata_x\n" + text(e)
        v, _n = CifFile.Validate(CifFile.ReadCif(io.StringIO(t)), dic=d)
        check(seen(v["x"][1]) == want, "verdict on a file that is read differs", lambda: "%r: %r instead of %r" % (t, v, want))
        # a validated block can be made from exactly the data that are valid
        known = [x for x in e if all(D.known(a) for a in lst(x[0]))]
        if len(known) == len(e):
            for data in (blk(e), CifFile.ReadCif(io.StringIO(t))["x"]):
                try:
                    b = CifFile.CifFile_module.ValidCifBlock(dic=d, data=data)
                except CifFile.CifFile_module.ValidCifError:
                    check(want, "valid data refused by a validated block", lambda: t)
                else:
                    check(not want, "invalid data accepted by a validated block", lambda: "%r: %r" % (t, want))
                    check(snapshot(b) == snapshot(data), "a validated block differs from its data", lambda: t)
        # an item is accepted exactly when the block stays valid
        old, (n, v) = e[:-1], e[-1]
        if isinstance(n, list) or not D.known(n) or D.judge(old) or not all(D.known(a) for a in names_of(old)):
            return
        b = CifFile.CifFile_module.ValidCifBlock(dic=d, data=blk(old))
        before = snapshot(b)
        try:
            b[n] = v
        except CifFile.ValidCifError:
            check(n.lower() in want, "valid item refused", lambda: "%r after %r" % ((n, v), old))
            check(snapshot(b) == before, "a refused item changes the block", lambda: "%r after %r: %r" % ((n, v), old, snapshot(b)))
            st["refused"] += 1
        else:
            check(n.lower() not in want, "invalid item accepted", lambda: "%r after %r: %r" % ((n, v), old, want))
            check(snapshot(b) == snapshot(blk(e)), "accepted items missing", lambda: "%r: %r" % (e, snapshot(b)))
            st["accepted"] += 1

    ctx.explore("validated blocks", gen5, fn5)

    # ---- several dictionaries ------------------------------------------------------------------------
    KINDS = [None, dict(cat="mm", type="numb", list="both"), dict(cat="mm", type="char", list="both", enum=["a", "b"]), dict(cat="mm", type="numb", list="both", range="0:10", cond="esd")]
    THREE = ["_Mm_one", "_mm_Two", "_Mm_3"]

    def gen6():
        ks = list(itertools.product(range(4), repeat=3))
        for a in ks:
            for b in ks:
                if any(a) and any(b) and not (ctx.quick and (a[2] > 1 or b[1] > 2)):
                    yield ("merge", a, b)

    def fn6(case, st):
        defs = [[(THREE[i], KINDS[k]) for i, k in enumerate(c) if k] for c in case[1:]]
        D = Dic(defs[0] + defs[1])          # the last one counts
        form = (sum(case[1]) + 2 * sum(case[2])) % 3
        dics = []
        for i, x in enumerate(defs):
            t = Dic(x).text
            if form == 0:
                dics.append(CifFile.ReadCif(io.StringIO(t), grammar="1.1"))
            elif form == 1:
                dics.append("d%d.dic" % i)
                with open(dics[-1], "w") as f:
                    f.write(t)
            else:
                dics.append(CifFile.ReadCif(io.StringIO(t), grammar="1.1") if i else CifFile.CifFile(io.StringIO(t)))
        f = CifFile.CifFile()
        vals = ["1", "a", "-1", "1(2)"]
        for i, v in enumerate(vals):
            f["b%d" % i] = blk([(n, v) for n in THREE])
        got, no = CifFile.Validate(f, diclist=dics)
        for i, v in enumerate(vals):
            want = D.judge([(n, v) for n in THREE])
            check(seen(got["b%d" % i][1]) == want, "verdict with two dictionaries", lambda: "%r: %r is reported as %r instead of %r" % (defs, v, got["b%d" % i], want))
            check({x.lower() for x in no["b%d" % i]} == {n.lower() for n in THREE if not D.known(n)}, "unknown names with two dictionaries", lambda: "%r: %r" % (defs, no))

    ctx.explore("two dictionaries", gen6, fn6)
