"""C27: validation against a DDL2 dictionary reports exactly the constraints that are violated."""
import io, itertools, re
from mc.core import check, Skip
from checks.c19 import quote, lst, number, SPECIAL

# type code -> primitive type, expression as written in dictionaries, reference for the whole text
NUM = r"[+-]?(\d+\.?|\d*\.\d+)(\(\d+\))?([eE][+-]?\d+)?"
TYPES = [
    ("code", "char", r"[][_,.;:\"&<>()/\{}'`~!@#$%A-Za-z0-9*|+-]*", lambda v: all(c in "][_,.;:\"&<>()/\\{}'`~!@#$%*|+-" or (c.isascii() and c.isalnum()) for c in v)),
    ("ucode", "uchar", r"[A-Za-z0-9_]+", lambda v: v != "" and all(c == "_" or (c.isascii() and c.isalnum()) for c in v)),
    ("text", "char", r"[][ \n\t()_,.;:\"&<>/\{}'`~!@#$%?+=*A-Za-z0-9|^-]*", lambda v: all(c in " \n\r\t][_,.;:\"&<>()/\\{}'`~!@#$%?=^*|+-" or (c.isascii() and c.isalnum()) for c in v)),
    ("line", "char", r"[][ \t_(),.;:\"&<>/\{}'`~!@#$%?+=*A-Za-z0-9|^-]*", lambda v: all(c in " \t][_,.;:\"&<>()/\\{}'`~!@#$%?=^*|+-" or (c.isascii() and c.isalnum()) for c in v)),
    ("int", "numb", r"[+-]?[0-9]+", lambda v: re.fullmatch(r"[+-]?\d+", v) is not None),
    ("float", "numb", NUM, lambda v: re.fullmatch(NUM, v) is not None),
    ("date", "char", r"[0-9]{4}-[0-9]{2}(-[0-9]{2})?|today", lambda v: v == "today" or re.fullmatch(r"\d{4}-\d\d(-\d\d)?", v) is not None),
]
REF = {t[0]: t for t in TYPES}


def table(tags, rows, loop=True):
    if not rows:
        return ""
    if len(rows) == 1 and not loop:
        return "".join("%s %s\n" % (t, quote(v)) for t, v in zip(tags, rows[0]))
    return "loop_\n%s\n" % "\n".join(tags) + "".join(" ".join(map(quote, r)) + "\n" for r in rows)


class Dic2(object):
    """items: [(name, dict(cat, type, cond, enum, range, alias, related, dep, mand))]; cats: {name: (keys, mandatory)};
    links: [(parent, child)]; where: how links and child definitions are written down"""
    def __init__(self, items, cats, links=(), where="parent", oneloop=True):
        self.d = {n.lower(): d for n, d in items}
        self.cats = {c.lower(): ([k.lower() for k in ks], m) for c, (ks, m) in cats.items()}
        self.links = [(p.lower(), c.lower()) for p, c in links]
        for n, d in items:
            for a in d.get("alias", []):
                self.d[a.lower()] = d
        self.name = {a.lower(): n.lower() for n, d in items for a in [n] + d.get("alias", [])}
        t = "data_t.dic\n_dictionary.title t.dic\n_dictionary.version 1.0\n"
        t += "loop_\n_item_type_list.code\n_item_type_list.primitive_code\n_item_type_list.construct\n"
        t += "".join("%s %s\n;%s\n;\n" % (a, b, c) if "'" in c and '"' in c else "%s %s %s\n" % (a, b, quote(c)) for a, b, c, _f in TYPES)
        for c, (ks, m) in cats.items():
            t += "save_%s\n_category.id %s\n_category.mandatory_code %s\n" % (c, c, m) + table(["_category_key.name"], [[k] for k in ks], oneloop) + "save_\n"
        hidden = set()           # children that have no definition of their own
        if where == "only parent":
            hidden = {c for _p, c in links if not any(c == q for q, _c in links)}
        for n, d in items:
            if n in hidden:
                continue
            kids = [c for p, c in links if p == n]
            t += "save_%s\n" % n
            names = [n]
            if where in ("parent", "only parent"):
                names += kids
                names = names[1:2] + names[:1] + names[2:]     # not always at the top
            rows = [(x, dict(items)[x]["cat"], dict(items)[x].get("mand", "no")) for x in names]
            if where == "only parent" or not kids:
                t += table(["_item.name", "_item.category_id", "_item.mandatory_code"], rows, oneloop and n not in [c for _p, c in links])
            elif where == "parent":
                t += table(["_item.name", "_item.category_id", "_item.mandatory_code"], rows)
            else:
                t += table(["_item.name", "_item.category_id", "_item.mandatory_code"], rows[:1], False)
            if kids and where in ("parent", "only parent"):
                t += table(["_item_linked.child_name", "_item_linked.parent_name"], [(c, n) for c in kids], len(kids) > 1 or oneloop)
            elif kids and where == "short parent":
                t += table(["_item_linked.child_name"], [(c,) for c in kids], oneloop)
            up = [p for p, c in links if c == n]
            if up and where == "child":
                t += table(["_item_linked.child_name", "_item_linked.parent_name"], [(n, p) for p in up], oneloop)
            elif up and where == "short child":
                t += table(["_item_linked.parent_name"], [(p,) for p in up], oneloop)
            for tag, key in (("_item_type.code", "type"), ("_item_type_conditions.code", "cond")):
                if d.get(key):
                    t += "%s %s\n" % (tag, d[key])
            if d.get("enum"):
                t += table(["_item_enumeration.value", "_item_enumeration.detail"], [(e, "text %d" % i) for i, e in enumerate(d["enum"])], oneloop)
            if d.get("range"):
                t += table(["_item_range.maximum", "_item_range.minimum"], [(str(b), str(a)) for a, b in d["range"]], oneloop)
            t += table(["_item_related.related_name", "_item_related.function_code"], d.get("related", []), oneloop)
            t += table(["_item_dependent.dependent_name"], [(x,) for x in d.get("dep", [])], oneloop)
            t += table(["_item_aliases.alias_name", "_item_aliases.dictionary", "_item_aliases.version"], [(a, "x.dic", "1") for a in d.get("alias", [])], oneloop)
            t += "save_\n"
        if where == "elsewhere" and links:
            host = items[-1][0]
            own = "save_%s\n" % host
            assert own in t
            t = t.replace(own, own + table(["_item_linked.child_name", "_item_linked.parent_name"], [(c, p) for p, c in links]))
        self.text = t
        self.hidden = {h.lower() for h in hidden}

    def known(self, n):
        return n.lower() in self.d

    def others(self, n, kinds):
        d = self.d.get(n.lower(), {})
        al = [] if n.lower() != self.name.get(n.lower()) else d.get("alias", [])
        return [a.lower() for a, f in d.get("related", []) if f in kinds] + [a.lower() for a in al]

    def item(self, n, value):
        d, bad = self.d[n.lower()], set()
        if n.lower() in self.hidden:
            return bad
        values = [v for v in lst(value) if v not in SPECIAL]
        t = d.get("type")
        if t and not all(REF[t][3](v) for v in values):
            bad.add("validate_item_type")
        if t and REF[t][1] == "numb" and d.get("cond") != "esd" and any(number(v) and number(v)[1] for v in values):
            bad.add("validate_item_esd")
        if d.get("enum") and not all(v in d["enum"] for v in values):
            bad.add("validate_item_enum")
        if d.get("range"):
            for v in values:
                x = number(v)
                if x is None or not any((a == b == x[0]) or ((a == "." or x[0] > a) and (b == "." or x[0] < b)) for a, b in d["range"]):
                    bad.add("validate_enum_range")
        return bad

    def loop(self, names):
        return {"validate_loop_membership"} if len({self.d[n.lower()]["cat"].lower() for n in names}) > 1 else set()

    def together(self, n, block):
        n = n.lower()
        d, bad = self.d[n], set()
        if n not in self.hidden:
            if set(self.others(n, ("replace", "alternate_exclusive"))) & set(block):
                bad.add("validate_exclusion")
            for x in d.get("dep", []):
                if not set([x.lower()] + self.others(x, ("alternate", "replace"))) & set(block):
                    bad.add("validate_dependents")
        value = block[n]
        true = self.name[n]
        for p in [p for p, c in self.links if c == true][:1]:
            here = [q for q in [p] + self.others(p, ("alternate", "replace")) if q in block]
            own = {v for v in lst(value) if v not in SPECIAL}
            if (here and own - set(lst(block[here[0]]))) or (not here and own):
                bad.add("validate_parent")
        for c in [c for p, c in self.links if p == true]:
            for q in [c] + self.others(c, ("alternate", "replace")):
                if q in block and {v for v in lst(block[q]) if v not in SPECIAL} - set(lst(value)):
                    bad.add("validate_child")
        keys = self.cats.get(d["cat"].lower(), ((), ""))[0]
        if n in keys and isinstance(value, list):
            cols = []
            for k in keys:
                if k in block:
                    cols.append(block[k])
                elif self.d[k].get("mand") != "implicit":
                    bad.add("validate_uniqueness")
            if not all(isinstance(c, list) and len(c) == len(value) for c in cols):
                bad.add("validate_uniqueness")
            elif len(set(zip(*cols))) < len(value):
                bad.add("validate_uniqueness")
        return bad

    def judge(self, entries):
        block = {}
        for n, v in entries:
            for a, b in zip(n, v) if isinstance(n, list) else [(n, v)]:
                block[a.lower()] = list(b) if isinstance(n, list) else b
        block = {n: v for n, v in block.items() if self.known(n)}
        out = {n: self.item(n, v) | self.together(n, block) for n, v in block.items()}
        for n, _v in entries:
            if isinstance(n, list):
                kn = [a.lower() for a in n if self.known(a)]
                if kn:
                    out[kn[0]] = out[kn[0]] | self.loop(kn)
        have = {self.d[n]["cat"].lower() for n in block}
        if any(m == "yes" and c not in have for c, (_k, m) in self.cats.items()):
            out["whole_block"] = {"validate_mandatory_category"}
        return {n: b for n, b in out.items() if b}


def run(ctx):
    ctx.rule = ("a case is (DDL2 definitions and how they are written down, data block): every combination of constraints with every arrangement of values, names, "
                "loops and links up to the bound; the set of checks reported for every item is compared with a reference that reads the constraints")
    import CifFile
    made = {}

    def dic(key, *args, **kw):
        if key not in made:
            D = Dic2(*args, **kw)
            made[key] = (D, CifFile.CifDic(CifFile.ReadCif(io.StringIO(D.text), grammar="1.1"), do_dREL=False))
        return made[key]

    def blk(entries):
        b = CifFile.CifBlock()
        for n, v in entries:
            if isinstance(n, list):
                b.AddCifItem(([n], [[list(c) for c in v]]))
            else:
                b[n] = v
        return b

    def snapshot(b):
        return [(n, list(b[n]) if isinstance(b[n], list) else b[n]) for n in b.keys()], sorted(map(tuple, b.loops.values()))

    def seen(results):
        return {k.lower(): {r[0] for r in v} for k, v in results.items()}

    def agree(st, key, D, d, entries):
        want = D.judge(entries)
        f = CifFile.CifFile()
        f["Blk"] = blk(entries)
        before = snapshot(f["blk"])
        v, n = CifFile.Validate(f, dic=d)
        ok, res = list(v.values())[0]
        got = seen(res)
        bad = sorted({("too strict " if c in got.get(x, ()) else "too lax ") + c for x in set(got) | set(want) for c in got.get(x, set()) ^ want.get(x, set())})
        check(got == want, "%s: wrong verdict of %s" % (key, ",".join(bad)), lambda: "%r in %s: reported %r instead of %r" % (entries, D.text[400:], got, want))
        check(ok == (not want), "overall verdict disagrees", lambda: "%r: %r with %r" % (entries, ok, got))
        unknown = {a.lower() for x, _v in entries for a in lst(x) if not D.known(a)}
        check({x.lower() for x in list(n.values())[0]} == unknown, "unknown names wrong", lambda: "%r: %r" % (entries, n))
        check(snapshot(f["blk"]) == before, "validation changes the block", lambda: "%r" % (entries,))
        known = [e for e in entries if all(D.known(a) for a in lst(e[0]))]
        want = D.judge(known)
        try:
            CifFile.CifFile_module.ValidCifBlock(dic=d, data=blk(known))
        except CifFile.CifFile_module.ValidCifError:
            check(want, "valid data refused by a validated block", lambda: "%r" % (entries,))
        else:
            check(not want, "invalid data accepted by a validated block", lambda: "%r: %r" % (entries, want))
        st["invalid" if want else "valid"] += 1

    # ---- one item --------------------------------------------------------------------------
    DEFS = []
    for t, cond, enum, rng in itertools.product([None] + [x[0] for x in TYPES], (None, "none", "esd"), (None, ["a"], ["ab", "1", "1.0"]),
                                                (None, [(0.0, ".")], [(".", 10.0)], [(0.0, 10.0), (10.0, 10.0)], [(1.0, 1.0)], [(-5.0, -1.0), (1.0, 5.0)])):
        numb = t in ("int", "float")
        if (rng and not numb) or (rng and enum) or (cond and not numb):
            continue
        DEFS.append(dict(cat="c", type=t, cond=cond, enum=enum, range=rng))
    NAMED = [("_c.Item%d" % i, d) for i, d in enumerate(DEFS)]
    VALUES = [".", "?", "", "1", "-1", "+1", "1.", ".5", "1.5", "-1.5", "0", "-0.0", "5", "5.0", "10", "10.0", "10.01", "1e1", "1E+1", "1.5(2)", "1.5(2)e1", "(2)", "1e", "--1", "1 ", "a", "A",
              "ab", "ab c", "a_b", "a{b", "a\\b", "a}b", "a]b", "a[b", "a\tb", "x\n1", "many\nlines of\ntext", "2020-01", "2020-01-02", "2020-01-0", "today", "todayx", "2020-01today",
              "a=b", "a^b", "a?b", "a|b", "1\n", "ab\n"]

    def gen1():
        for one in (False, True):
            for i in range(len(DEFS)):
                for v in VALUES:
                    yield ("item", one, i, [v], False)
                    if not ctx.quick or v in ("1", "a", "1.5(2)", ".", "x\n1"):
                        yield ("item", one, i, [v], True)
                        yield ("item", one, i, ["1", v], True)

    def fn1(case, st):
        _k, one, i, vals, looped = case
        D, d = dic(("items", one), NAMED, {"c": ([], "no")}, oneloop=one)
        n = NAMED[i][0]
        n = (n, n.upper(), n.lower())[i % 3]
        agree(st, "item", D, d, [([n], [vals])] if looped else [(n, vals[0])])

    ctx.explore("single items: every kind of definition and value", gen1, fn1)

    # ---- names together -------------------------------------------------------------------
    GROUP = [
        ("_Aa.id", dict(cat="Aa", alias=["_aa_Id", "_aa_Label"])),
        ("_Aa.new", dict(cat="Aa", related=[("_Aa.Old", "replace")])),
        ("_Aa.Old", dict(cat="Aa", related=[("_Aa.new", "alternate_exclusive"), ("_Aa.id", "alternate")])),
        ("_Aa.x", dict(cat="Aa", dep=["_Aa.id"])),
        ("_Bb.y", dict(cat="bb", dep=["_Aa.Old", "_aa.X"])),
        ("_Bb.Z", dict(cat="bb", alias=["_bb_z"])),
    ]
    NAMES = [n for n, _d in GROUP] + ["_aa_id", "_AA_label", "_bb_z", "_other"]

    def gen2():
        for mand in itertools.product(("no", "yes"), repeat=2):
            for k in (1, 2, 3) if ctx.quick else (1, 2, 3, 4):
                for c in itertools.combinations(NAMES, k):
                    for how in ("items", "loop", "rev", "split"):
                        if (how == "split" and k < 2) or (how == "rev" and k == 1):
                            continue
                        yield ("names", mand, c, how)

    def fn2(case, st):
        _k, mand, c, how = case
        D, d = dic(("group", mand), GROUP, {"Aa": ([], mand[0]), "bb": ([], mand[1])})
        c = list(c)
        if how == "items":
            e = [(n, "v") for n in c]
        elif how in ("loop", "rev"):
            e = [(c if how == "loop" else [n.upper() for n in c[::-1]], [["v", "w"]] * len(c))]
        else:
            e = [(c[:-1], [["v", "w"]] * (len(c) - 1)), (c[-1:], [["v"]])]
        agree(st, "names", D, d, e)

    ctx.explore("which names go together, mandatory categories", gen2, fn2)

    # ---- parents and children -----------------------------------------------------------------
    FAM = [("_Pp.Id", dict(cat="pp", alias=["_pp_id"])), ("_Qq.P_id", dict(cat="qq")), ("_Qq.Other", dict(cat="qq", alias=["_qq_other"])), ("_Rr.q", dict(cat="rr")), ("_Ss.free", dict(cat="ss"))]
    LINKS = [("_Pp.Id", "_Qq.P_id"), ("_Pp.Id", "_Qq.Other"), ("_Qq.P_id", "_Rr.q"), ("_Pp.Id", "_Rr.q")]
    WHERE = ("parent", "only parent", "child", "short parent", "short child", "elsewhere")

    def gen3():
        vals = ["a", ".", ["a"], ["b"], ["a", "b"], ["?", "a"]]
        few = ["a", ["a"], ["b", "."]]
        names = [n for n, _d in FAM[:4]] + ["_pp_id", "_qq_other"]
        for ls in ((), (0,), (0, 1), (0, 1, 2), (1, 3), (0, 2)):
            for w in WHERE:
                for one, rev in ((False, False), (True, True)) if ctx.quick else itertools.product((False, True), repeat=2):
                    for k, vs in ((1, vals), (2, vals), (3, few)):
                        if k == 3 and ctx.quick and (one if ls == (0, 1) else len(ls) < 2):
                            continue
                        for ns in itertools.combinations(names, k):
                            for v in itertools.product(vs, repeat=k):
                                yield ("fam", ls, w, (one, rev), list(zip(ns, v)))

    def fn3(case, st):
        _k, ls, w, (one, rev), entries = case
        D, d = dic(("fam", ls, w, one, rev), FAM[:-1][::-1] + FAM[-1:] if rev else FAM, {c: ([], "no") for c in ("pp", "qq", "rr", "ss")}, [LINKS[i] for i in ls], w, one)
        if D.hidden and "_qq_other" in [n for n, _v in entries] and "_qq.other" in D.hidden:
            raise Skip()           # a definition that is not there has no alias either
        agree(st, "links written in " + w, D, d, [([n], [v]) if isinstance(v, list) else (n, v) for n, v in entries])

    ctx.explore("parents and children", gen3, fn3)

    # ---- category keys --------------------------------------------------------------------------
    KEYS = [("_Kk.One", dict(cat="kk", mand="yes")), ("_Kk.Two", dict(cat="kk", mand="yes")), ("_Kk.text", dict(cat="kk")), ("_Ll.num", dict(cat="ll")), ("_Ll.imp", dict(cat="ll", mand="implicit"))]
    KCATS = {"kk": (["_Kk.One", "_Kk.Two"], "no"), "ll": (["_Ll.num", "_Ll.imp"], "no")}

    def gen4():
        cells = ["a", "b", "a b", "."]
        for k in (1, 2, 3):
            use = cells if k < 3 else cells[:2]
            for a in itertools.product(use, repeat=k):
                for ns in (["_Kk.One"], ["_Ll.num"], ["_LL.NUM"], ["_Kk.text"], ["_Ll.imp"], ["_kk.two"]):
                    yield ("keys", [(ns, [list(a)])])
                for b in itertools.product(use, repeat=k):
                    for ns in (["_Kk.One", "_Kk.Two"], ["_kk.two", "_KK.one"], ["_Ll.imp", "_Ll.num"], ["_Kk.One", "_Kk.text"]):
                        yield ("keys", [(ns, [list(a), list(b)])])
                    yield ("keys", [(["_Kk.text", "_Kk.One", "_Kk.Two"], [["t"] * k, list(b), list(a)])])
                yield ("keys", [(["_Kk.One"], [list(a)]), ("_Kk.Two", "a")])
                yield ("keys", [(["_Kk.One"], [list(a)]), (["_Kk.Two"], [["a", "b"]])])
        yield ("keys", [("_Kk.One", "a"), ("_Kk.Two", "a"), ("_Ll.num", "a")])
        yield ("keys", [("_Kk.One", "a")])

    def fn4(case, st):
        D, d = dic("keys", KEYS, KCATS)
        agree(st, "keys", D, d, case[1])

    ctx.explore("category keys", gen4, fn4)
