"""C24: names resolve through a dictionary the same way however they are spelled."""
import itertools
from mc.core import check, Skip
from checks.dicbuild import *

_dics = {}


def cached(text):
    if text not in _dics:
        if len(_dics) > 60:
            _dics.clear()
        _dics[text] = load(text)
    return _dics[text]


def cases(s, every):
    """the spellings of s that differ in letter case"""
    if not every or sum(c.isalpha() for c in s) > every:
        return sorted({s, s.lower(), s.upper(), s.title(), s.swapcase()})
    return sorted({"".join(t) for t in itertools.product(*[(c.lower(), c.upper()) for c in s])})


def run(ctx):
    ctx.rule = ('a case is (category tree, definitions, spelling): every name, category/object pair, alias and key in every way of spelling is looked up and compared with a reference')
    import CifFile
    EV = 5 if ctx.quick else 8

    # ------------------------------------------------------------------ the dictionary itself
    # categories: a chain or a fan of looped categories below a Set category; each has a key, own items with data names
    # that do or do not follow from category and object
    def tree(shape, mixed):
        """shape: parent index of each looped category (-1: the head)"""
        cn = [("Aa", "bB", "Cc", "dd")[i] if mixed else "abcd"[i] * 2 for i in range(len(shape))]
        par = [cn[p] if p >= 0 else "HEADCAT" for p in shape]
        return cn, par

    def shapes():
        yield from ((-1,), (-1, -1), (-1, 0), (-1, 0, 1), (-1, 0, 0), (-1, -1, 1), (-1, 0, 1, 2), (-1, 0, 1, 0), (-1, 0, 0, 1), (-1, 0, 0, 0))

    OBJ = ("x", "y", "shared")

    def g_dic():
        for shape in shapes():
            for mixed in (0, 1):
                for style in range(4):          # how data names are made, and whether single entries are looped
                    for flat in (0, 1):
                        yield shape, mixed, style, flat

    def dic_text(shape, mixed, style, flat):
        cn, par = tree(shape, mixed)
        text, names = "", {}
        for i, c in enumerate(cn):
            k = "_%s.k" % c
            text += ('save_%s\n_definition.id %s\n_definition.scope Category\n_definition.class Loop\n_description.text "x"\n_name.category_id %s\n_name.object_id %s\n' % (c, c, par[i], c)
                     + ("_category_key.name '%s'\nsave_\n" % k if flat else "loop_\n_category_key.name\n'%s'\nsave_\n" % k))
            text += item(c, "k", "Code", "Key", "Assigned") if shape[i] < 0 else item(c, "k", "Code", "Key", "Related", extra="_name.linked_item_id '_%s.k'\n" % cn[shape[i]])
            names[c, "k"] = (k, [])
            for o in ("x" + str(i), "shared") + (("Obj",) if i == len(cn) - 1 else ()):
                nm = {0: "_%s.%s" % (c, o), 1: "_%s_%s" % (c, o), 2: "_%s.%s" % (c.upper(), o.title()), 3: "_%s_%s_zz" % (o, c)}[style]
                al = [] if o == "shared" and style == 0 else ["_old_%s_%s" % (c, o)] if i % 2 == 0 else ["_Old_%s_%s" % (c, o), "_older.%s%s" % (c, o)]
                t = item(c, o, "Real", name=nm)
                if al:
                    t = t.replace("save_\n", "_alias.definition_id '%s'\nsave_\n" % al[0] if flat and len(al) == 1 else "loop_\n_alias.definition_id\n" + "".join("'%s'\n" % a for a in al) + "save_\n")
                text += t
                names[c, o] = (nm, al)
        text += cat("Set1") + item("Set1", "v", alias=["_sv"])
        names["Set1", "v"] = ("_Set1.v", ["_sv"])
        return text, cn, names

    def f_dic(case, st):
        shape, mixed, style, flat = case
        text, cn, names = dic_text(*case)
        d = cached(text)
        lab = lambda: "categories %r, names %d" % (shape, style)

        def below(i):
            out = [i]
            for j, p in enumerate(shape):
                if p == i:
                    out += below(j)
            return out
        for c in list(cn) + ["Set1", "HEADCAT"]:
            for s in cases(c, EV):
                check(s in d and d.has_key(s) and d[s]["_definition.id"].lower() == c.lower(), "category", lambda: "%s: %r does not give category %r" % (lab(), s, c))
                if c != "HEADCAT":
                    got = sorted(d.names_in_cat(s))
                    want = sorted(n.lower() for (cc, o), (n, a) in names.items() if cc == c)
                    check(got == want, "listed", lambda: "%s: the items of %r are %r, not %r" % (lab(), s, got, want))
                st["names"] += 1
        known = {n.lower() for n, a in names.values()} | {c.lower() for c in cn} | {"set1", "headcat"}
        for (c, o), (n, al) in names.items():
            for s in cases(n, 6):
                check(s in d and d.has_key(s) and d[s]["_definition.id"] == n and d.get(s)["_definition.id"] == n, "name", lambda: "%s: %r does not give the definition of %r" % (lab(), s, n))
                st["names"] += 1
            for cs, os in itertools.product(cases(c, EV), cases(o, EV)):
                for under in ("", "_"):
                    got = d.get_name_by_cat_obj(under + cs, os)
                    check(got == n, "category-object", lambda: "%s: %r, %r gives %r instead of %r" % (lab(), under + cs, os, got, n))
                    st["names"] += 1
            for wrong in (n + "q", n[:-1], "_" + n):
                if wrong.lower() not in known:
                    check(wrong not in d and not d.has_key(wrong) and d.get(wrong, "no") == "no", "missing", lambda: "%s: %r is found" % (lab(), wrong))
                    try:
                        d[wrong]
                    except KeyError:
                        pass
                    else:
                        check(False, "missing", lambda: "%s: %r gives a definition" % (lab(), wrong))
        # objects of categories below
        for i, c in enumerate(cn):
            kids = [cn[j] for j in below(i)]
            for o in {o for cc, o in names}:
                cand = {names[k, o][0] for k in kids if (k, o) in names and (o != "k" or k == c)}
                try:
                    got = d.get_name_by_cat_obj(c, o)
                except KeyError:
                    got = None
                check(got is None if not cand else got in cand and ((c, o) not in names or got == names[c, o][0]), "child-object",
                      lambda: "%s: %r, %r gives %r, one of %r was expected" % (lab(), c, o, got, cand))
                for cs, os in ((c.upper(), o.upper()), (c.swapcase(), o)):
                    try:
                        again = d.get_name_by_cat_obj(cs, os)
                    except KeyError:
                        again = None
                    check(again == got, "child-object", lambda: "%s: %r, %r gives %r, %r, %r gives %r" % (lab(), c, o, got, cs, os, again))
            for o in ("nothing", "xx"):
                try:
                    got = d.get_name_by_cat_obj(c, o)
                except KeyError:
                    continue
                check(False, "missing", lambda: "%s: %r, %r gives %r" % (lab(), c, o, got))
            keys = [k[0].lower() for k in d.cat_key_table[c.lower()]]
            check(keys and keys[0] == "_%s.k" % c.lower() and sorted(keys) == sorted("_%s.k" % k.lower() for k in kids), "keys", lambda: "%s: the keys of %r are %r" % (lab(), c, keys))
    ctx.explore("definitions by name, category and object", g_dic, f_dic)

    # ------------------------------------------------------------------ items of a block
    def alias_text(al, flat):
        return "" if not al else "_alias.definition_id '%s'\n" % al[0] if flat and len(al) == 1 else "loop_\n_alias.definition_id\n" + "".join("'%s'\n" % a for a in al)
    ALS = ((), ("_s_old",), ("_S_Old", "_older.x"))

    def g_block():
        for al1, al2 in itertools.product(ALS, (("_l_old",), ("_L_v", "_l_v2"))):
            for flat in (0, 1):
                for use in range(len(al1) + 2):           # which name the data use; the last: none
                    for use2 in range(len(al2) + 2):
                        for typ in ("Real", "Code"):
                            yield al1, al2, flat, use, use2, typ

    def f_block(case, st):
        al1, al2, flat, use, use2, typ = case
        text = (cat("s") + item("s", "X", typ, name="_s.X", extra=alias_text(al1, flat)) + item("s", "y", "Real", meth=["_s.y = 2 * _s.n"])
                + item("s", "n", "Integer", meth=["t = 0\nLoop p as l {\nt += 1\n}\n_s.n = t"])
                + cat("l", "Loop", ["k"]) + item("l", "k", "Code", "Key", "Assigned") + item("l", "v", typ, extra=alias_text(al2, flat))
                + item("l", "w", typ, meth=["_l.w = _l.v"], alias=["_l_w"]))
        d = cached(text)
        n1, n2 = ("_s.X",) + al1, ("_l.v",) + al2
        val, col = ("2.5", ["1", "-3"]) if typ == "Real" else ("Abc", ["Q", "rS"])
        conv = (lambda s: float(s)) if typ == "Real" else (lambda s: s.lower())
        for fold in (str, str.upper, str.swapcase):
            data = "_z 1\n"
            if use < len(n1):
                data += "%s %s\n" % (fold(n1[use]), val)
            if use2 < len(n2):
                data += "loop_\n_l.k\n%s\na %s\nb %s\n" % (fold(n2[use2]), col[0], col[1])
            for pv in (False, True):
                for rounds in ((n1, n2, ("_l.w", "_l_w")), (("_l_w", "_l.w"), n2, n1)):
                    b = block(data, d)
                    b.provide_value = pv
                    before = {k: repr(v) for k, v in b.block.items()}
                    for names in rounds:
                        there = use < len(n1) if names == n1 else use2 < len(n2)
                        for n in names:
                            for s in cases(n, 0):
                                st["requests"] += 1
                                lab = lambda: "aliases %r, data %r, conversion %s: %s" % (n1 + n2, data, pv, s)
                                try:
                                    got = b[s]
                                except KeyError:
                                    got = None
                                if not there:
                                    check(got is None, "missing", lambda: "%s gives %r" % (lab(), got))
                                    check(not b.has_key_or_alias(s), "missing", lambda: "%s is reported as present" % lab())
                                    continue
                                derived = names not in (n1, n2)
                                want = val if names == n1 else col
                                want = (conv(want) if names == n1 else [conv(c) for c in want]) if pv or derived else want
                                if derived and got is not None:
                                    got = [float(g) if typ == "Real" else g for g in got]
                                check(got == want and type(got) is type(want), "value", lambda: "%s gives %r instead of %r" % (lab(), got, want))
                                if not derived:
                                    check(b.has_key_or_alias(s), "present", lambda: "%s is not reported as present" % lab())
                                    check({k: repr(v) for k, v in b.block.items() if k in before} == before, "changed", lambda: "%s: the block is now %r" % (lab(), b.block))
                    for wrong in ("_s_ol", "_s.xx", "_L_", "_l.V_", "_nope"):
                        try:
                            got = b[wrong]
                        except KeyError:
                            continue
                        check(False, "missing", lambda: "%s gives %r" % (wrong, got))
                        check(not b.has_key_or_alias(wrong), "missing", lambda: "%s is reported as present" % wrong)
    ctx.explore("items of a block by any name", g_block, f_block)

    # ------------------------------------------------------------------ rows by key
    def g_rows():
        chains = ((-1,), (-1, 0), (-1, 0, 1), (-1, 0, 0))
        for shape in chains:
            for kt in ("Code", "Text", "Integer"):
                n = len(shape)
                keysets = (("P", "q"), ("q", "P"), ("q",), None) if ctx.quick else (("P", "q"), ("q", "P"), ("q",), ("P",), ("r", "P", "q"), None)
                for rows in itertools.product(keysets, repeat=n):
                    if all(r is None for r in rows):
                        continue
                    for alias in (0, 1):
                        yield shape, kt, rows, alias

    def f_rows(case, st):
        shape, kt, rows, alias = case
        cn = ["aa", "Bb", "cc"][:len(shape)]
        key = (lambda k: {"P": "1", "q": "20", "r": "3"}[k]) if kt == "Integer" else (lambda k: k)
        text = ""
        for i, c in enumerate(cn):
            text += cat(c, "Loop", ["k"], parent=cn[shape[i]] if shape[i] >= 0 else "HEADCAT")
            al = ["_%s_key" % c]
            text += item(c, "k", kt, "Key", "Assigned", alias=al) if shape[i] < 0 else item(c, "k", kt, "Key", "Related", alias=al, extra="_name.linked_item_id '_%s.k'\n" % cn[shape[i]])
            text += item(c, "x%d" % i, "Real", alias=["_%s_old" % c]) + item(c, "d%d" % i, "Real", meth=["_%s.d%d = _%s.x%d * 10" % (c, i, c, i)])
        d = cached(text)
        data = "_z 1\n"
        for i, (c, r) in enumerate(zip(cn, rows)):
            if r is not None:
                data += "loop_\n%s\n%s\n" % (("_%s_key" % c, "_%s_old" % c) if alias else ("_%s.k" % c, "_%s.x%d" % (c, i))) + "".join("%s %d\n" % (key(k), 100 * i + j) for j, k in enumerate(r))

        def below(i):
            out = [i]
            for j, p in enumerate(shape):
                if p == i:
                    out += below(j)
            return out
        same = (lambda a, b: a.lower() == b.lower()) if kt == "Code" else (lambda a, b: a == b)
        asked = [key("P"), key("q"), key("r")] + ([] if kt == "Integer" else ["p", "Q", "", "Pq"])
        for i, c in enumerate(cn):
            for k in asked:
                for cs in (c, c.lower(), c.upper()):
                    for multi in (0, 1):
                        b = block(data, d)
                        start = {kk: repr(v) for kk, v in b.block.items()}
                        want = {}
                        for j in below(i):
                            hit = [m for m, kk in enumerate(rows[j] or ()) if same(key(kk), k)]
                            if hit:
                                want["_%s.x%d" % (cn[j], j)] = str(100 * j + hit[0])
                        st["lookups"] += 1
                        lab = lambda: "%s keys, data %r, key %r of %s" % (kt, data, k, cs)
                        try:
                            if multi:
                                ask = {"_%s.K" % cs: (k, kt == "Code")}
                                p = b.GetMultiKeyedSemanticPacket(ask, cs)
                                check(ask == {"_%s.K" % cs: (k, kt == "Code")}, "argument", lambda: "%s: the request was changed to %r" % (lab(), ask))
                            else:
                                p = b.GetKeyedSemanticPacket(k, cs)
                        except ValueError:
                            check(not want, "not-found", lambda: "%s: not found, %r was expected" % (lab(), want))
                            continue
                        if multi and not want and any(rows[j] is None and shape[j] >= 0 for j in below(i)):
                            continue        # the parent's row stands in for that of a category without a loop of its own
                        check(want, "found", lambda: "%s: found %r" % (lab(), p))
                        for n, w in want.items():
                            for s in (n, n.upper(), "_%s_old" % n[1:].split(".")[0]):
                                got = getattr(p, s)
                                check(str(got) == w, "row", lambda: "%s: %s is %r instead of %s" % (lab(), s, got, w))
                        for j in below(i):
                            n = "_%s.d%d" % (cn[j], j)
                            if "_%s.x%d" % (cn[j], j) in want and j == below(i)[0]:
                                got = getattr(p, n)
                                check(float(got) == 10 * float(want["_%s.x%d" % (cn[j], j)]), "derived", lambda: "%s: %s is %r" % (lab(), n, got))
                            if "_%s.x%d" % (cn[j], j) not in want:
                                try:
                                    got = getattr(p, "_%s.x%d" % (cn[j], j))
                                except (AttributeError, ValueError, KeyError):
                                    continue
                                check(False, "found", lambda: "%s: %s is %r" % (lab(), "_%s.x%d" % (cn[j], j), got))
                        check({kk: repr(v) for kk, v in b.block.items() if kk in start} == start, "changed", lambda: "%s: the block is now %r" % (lab(), b.block))
    ctx.explore("rows by key", g_rows, f_rows)
