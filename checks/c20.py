"""C20: validation against a DDLm dictionary reports exactly the constraints that are violated."""
import io, itertools
from mc.core import check, Skip
from checks.dicbuild import *

SPECIAL = (".", "?")


def states(s):
    if s is None:
        return ""
    if isinstance(s, str):
        return "_enumeration_set.state %s\n" % lit(s)
    return "loop_\n_enumeration_set.state\n" + "\n".join(map(lit, s)) + "\n"


def lit(v):
    if isinstance(v, list):
        return "[" + " ".join(map(lit, v)) + "]"
    if isinstance(v, dict):
        return "{" + " ".join("'%s':%s" % (k, lit(x)) for k, x in v.items()) + "}"
    return "'%s'" % v


def leaves(v):
    if isinstance(v, list):
        return [y for x in v for y in leaves(x)]
    if isinstance(v, dict):
        return [y for x in v.values() for y in leaves(x)]
    return [v]


def text(entries):
    t = ""
    for n, v in entries:
        if isinstance(n, list):
            t += "loop_\n%s\n" % "\n".join(n) + "".join(" ".join(map(lit, r)) + "\n" for r in zip(*v))
        else:
            t += "%s %s\n" % (n, lit(v))
    return t


def plain(v):
    return [plain(x) for x in v] if isinstance(v, (list, tuple)) else {k: plain(x) for k, x in v.items()} if hasattr(v, "items") else v


def run(ctx):
    ctx.rule = ('a case is (definitions, data block or definition): every combination up to the bound; the set of checks reported is compared with a reference')
    import CifFile
    made = {}

    def dic(key, body, **kw):
        if key not in made:
            made[key] = load(body, **kw)
        return made[key]

    def snapshot(b):
        return [(n, plain(b[n])) for n in b.keys()], sorted(map(tuple, b.loops.values()))

    def seen(results):
        return {k.lower(): {r[0] for r in v} for k, v in results.items()}

    def agree(st, key, d, entries, want, unknown=(), assigned=True):
        """the verdict on a block, whether the dictionary is assigned to the block or not"""
        t = "#\\#CIF_2.0\ndata_x\n" + text(entries)
        for assign in (False, True) if assigned else (False,):
            f = CifFile.ReadCif(io.StringIO(t), grammar="2.0")
            if assign:
                f["x"].assign_dictionary(d)
            before = None if assign else snapshot(f["x"])
            v, n = CifFile.Validate(f, dic=d)
            ok, res = v["x"]
            got = seen(res)
            bad = sorted({("too strict " if c in got.get(x, ()) else "too lax ") + c for x in set(got) | set(want) for c in got.get(x, set()) ^ want.get(x, set())})
            check(got == want, "%s: wrong verdict%s of %s" % (key, " with dictionary assigned" if assign else "", ",".join(bad)), lambda: "%r: reported %r instead of %r" % (t, got, want))
            check(ok == (not want), "overall verdict disagrees", lambda: "%r: %r with %r" % (t, ok, got))
            check({x.lower() for x in n["x"]} == set(unknown), "unknown names wrong", lambda: "%r: %r" % (t, n))
            check(assign or snapshot(f["x"]) == before, "validation changes the block", lambda: "%r: %r" % (t, before))
            r = CifFile.CifFile_module.ValidationResult((v, n))
            check(r.is_valid() == (not want) and r.has_no_match_items() == bool(unknown), "ValidationResult", lambda: t)
        st["invalid" if want else "valid"] += 1

    # ---- enumerated values ---------------------------------------------------------------------
    STATES = [None, "a", ["a"], ["a", "b"], ["A", "1", "-1", "a b"], ["1.0", "10"], ["yes", "no", "unknown"]]
    SHAPES = [("Single", "Code"), ("Single", "Text"), ("Single", "Integer"), ("Single", "Real"), ("List", "Code"), ("List", "Integer"), ("Array", "Real"), ("Table", "Text")]
    KINDS = [(s, c, t) for s in STATES for c, t in SHAPES if t in ("Code", "Text") or s != "a"]
    CELLS = ["a", "b", "A", "1", "1.0", "-1", "10", "a b", "yes", "", ".", "?", "c"]
    LISTS = [["a"], ["a", "b"], ["1", "-1"], ["a", "c"], [], [".", "a"], [["a", "b"], ["b", "?"]], [["1", "10"], ["1.0", "2"]], ["yes", ["a", "no"]]]
    TABLES = [{"k": "a"}, {"a": "b", "b": "c"}, {}, {"k": ["a", "b"]}]
    NUM = {"1", "1.0", "-1", "10", ".", "?"}

    def body1():
        return cat("s") + cat("l", "Loop", ["k"]) + item("l", "k", typ="Text", purpose="Key") + "".join(
            item(c, "i%d" % i, typ=t, container=con, purpose="State", extra=states(s)) for i, (s, con, t) in enumerate(KINDS) for c in ("s", "l"))

    def values(con, typ):
        v = CELLS if con == "Single" else TABLES + ["."] if con == "Table" else LISTS + [".", "?"]
        if typ in ("Integer", "Real"):
            v = [x for x in v if all(y in NUM and (typ == "Real" or y != "1.0") for y in leaves(x))]
        return v

    def g_enum():
        for i, (s, con, typ) in enumerate(KINDS):
            vs = values(con, typ)
            for v in vs:
                yield ("set", i, v)
                yield ("loop", i, [v])
            for a, b in itertools.permutations(vs[:5 if ctx.quick else 99], 2):
                yield ("loop", i, [a, b])

    def f_enum(case, st):
        d = dic("enum", body1(), do_dREL=False)
        s, con, typ = KINDS[case[1]]
        allowed = None if s is None else [s] if isinstance(s, str) else s
        if typ == "Code" and allowed:
            # codes are the same in any case
            good = lambda x: x in SPECIAL or x.lower() in [y.lower() for y in allowed]
        else:
            good = lambda x: allowed is None or x in SPECIAL or x in allowed
        vals = [case[2]] if case[0] == "set" else case[2]
        bad = not all(good(x) for x in leaves(vals))
        n = ("_s.i%d", "_S.I%d")[case[1] % 2] % case[1]
        if case[0] == "set":
            e = [(n, case[2])]
        else:
            n = n.replace("s.", "l.").replace("S.", "L.")
            e = [(["_l.k", n], [["k%d" % i for i in range(len(vals))], vals])]
        agree(st, "enumeration", d, e, {n.lower(): {"validate_item_enum"}} if bad else {}, assigned=typ in ("Code", "Text") and con == "Single")

    ctx.explore("enumerated values", g_enum, f_enum)

    # ---- which names can be looped together ---------------------------------------------------------
    # category -> (class, keys, parent)
    TREES = [
        {"ta": ("Loop", ["Id"], "HEADCAT"), "tb": ("Loop", ["id", "Two"], "HEADCAT"), "tc": ("Set", [], "HEADCAT"), "td": ("Loop", ["id"], "tc")},
        {"ta": ("Loop", ["Id"], "HEADCAT"), "Tb": ("Loop", ["id"], "ta"), "tc": ("Loop", ["id"], "tb"), "td": ("Loop", ["id"], "ta")},
        {"ta": ("Loop", ["Id", "Two"], "HEADCAT"), "tb": ("Loop", ["id", "two"], "TA"), "tc": ("Set", [], "ta"), "td": ("Loop", ["id"], "tc")},
    ]

    def body2(tree):
        out = ""
        for c, (cls, keys, parent) in tree.items():
            out += cat(c, cls, keys or None, parent=parent)
            up = {k.lower(): v for k, v in tree.items()}.get(parent.lower())
            for i, k in enumerate(keys):
                linked = ""
                if up and up[0] == "Loop":
                    linked = "_name.linked_item_id '_%s.%s'\n" % (parent, up[1][i])
                out += item(c, k, typ="Text", purpose="Link" if linked else "Key", extra=linked)
            out += item(c, "x", typ="Text", purpose="Describe")
        return out

    def names2(tree):
        return [(c, "_%s.%s" % (c, o)) for c, (cls, keys, parent) in tree.items() for o in keys + ["x"]]

    def g_loop():
        for i, tree in enumerate(TREES):
            ns = names2(tree) + [(None, "_not.there")]
            for k in (1, 2, 3, 4) if ctx.quick else (1, 2, 3, 4, 5):
                for c in itertools.combinations(range(len(ns)), k):
                    for s in range(k if k < 4 else 1):
                        yield ("loop", i, list(c[s:] + c[:s]), (0, 1)[k < 4 and sum(c) % 2])
            for a, b in itertools.combinations(range(len(ns)), 2):
                yield ("two", i, [a, b], 0)

    def rule(tree, cats, names):
        tree = {k.lower(): v for k, v in tree.items()}

        def top(c):
            while tree[c][2].lower() in tree and tree[tree[c][2].lower()][0] == "Loop":
                c = tree[c][2].lower()
            return c
        cats = [c.lower() for c in cats]
        loopable = [c for c in cats if tree[c][0] == "Loop"]
        bad = set()
        if len(loopable) < len(cats):
            bad.add("validate_looping_ddlm")
        tops = [top(c) for c in loopable]
        if len(set(tops)) > 1:
            bad.add("validate_loop_membership")
        if tops:
            keys = {"_%s.%s" % (c, k.lower()) for c in tree if tree[c][0] == "Loop" and top(c) == tops[0] for k in tree[c][1]}
            if not keys & {n.lower() for n in names}:
                bad.add("validate_loop_key_ddlm")
        return bad

    def f_loop(case, st):
        tree = TREES[case[1]]
        d = dic(("tree", case[1]), body2(tree), do_dREL=False)
        ns = names2(tree) + [(None, "_not.there")]
        chosen = [ns[i] for i in case[2]]
        spell = [n.upper() if case[3] else n for c, n in chosen]
        unknown = [n.lower() for c, n in chosen if c is None]
        want = {}
        if case[0] == "loop":
            known = [(c, n) for c, n in chosen if c]
            if known:
                bad = rule(tree, [c for c, n in known], [n for c, n in known])
                if bad:
                    want[known[0][1].lower()] = bad
            e = [(spell, [["1", "2"]] * len(spell))]
        else:
            for c, n in chosen:
                bad = c and rule(tree, [c], [n])
                if bad:
                    want[n.lower()] = bad
            e = [([n], [["1", "2", "3"]]) for n in spell]
        agree(st, "loop", d, e, want, unknown)
        if not unknown:
            # one name after another, none looped
            agree(st, "unlooped", d, [(n, "1") for n in spell], {})

    ctx.explore("names that share a loop", g_loop, f_loop)

    # ---- dictionaries: attributes that must or can not be there -----------------------------------------
    ATTRS = ["_pa.one", "_Pa.Two", "_pb.one", "_pc.one"]
    RULES = [None, ["_pa.one"], ["_Pa.Two", "_pb.one"], ["pa"], ["PA", "_pc.One"]]

    def expand(r):
        out = set()
        for x in r or ():
            out |= {"_pa.one", "_pa.two"} if x.lower() == "pa" else {x.lower()}
        return out

    SCOPES = ("Dictionary", "Category", "Item")

    def language(rules):
        """rules: (scope, option) -> list of names"""
        loop = "".join("['%s' '%s'] %s\n" % (s, o, lit(r)) for (s, o), r in rules.items() if r is not None)
        head = HEAD.replace("data_T\n", "data_T\n" + ("loop_\n_dictionary_valid.application\n_dictionary_valid.attributes\n" + loop if loop else ""))
        b = head + cat("pa") + cat("pb") + cat("pc") + "".join(item(a[1:3].lower(), a.split(".")[1], typ="Text", purpose="Describe", name=a) for a in ATTRS)
        b += cat("definition") + item("definition", "scope", typ="Code", purpose="State") + item("definition", "id", typ="Code", purpose="Describe")
        b += cat("dictionary") + item("dictionary", "title", typ="Code", purpose="Describe")
        return CifFile.CifDic(CifFile.ReadCif(io.StringIO(b), grammar="2.0"), grammar="2.0", do_dREL=True)

    def g_valid():
        opts = [(s, o) for s in SCOPES for o in ("Mandatory", "Prohibited", "Recommended")]
        for s in SCOPES:
            for m in range(len(RULES)):
                for p in range(len(RULES)):
                    other = {"Dictionary": "Item", "Item": "Category", "Category": "Dictionary"}[s]
                    for q in (None, 2):
                        yield (s, m, p, other, q)

    def f_valid(case, st):
        s, m, p, other, q = case
        rules = {(s, "Mandatory"): RULES[m], (s, "Prohibited"): RULES[p], (s, "Recommended"): ["_pc.one"], (other, "Mandatory"): q and RULES[q]}
        lang = language(rules)
        must = {sc: expand(rules.get((sc, "Mandatory"))) for sc in SCOPES}
        mustnt = {sc: expand(rules.get((sc, "Prohibited"))) for sc in SCOPES}
        for have in itertools.product((0, 1), repeat=4) if not ctx.quick else [(0, 0, 0, 0), (1, 1, 1, 1), (1, 0, 0, 0), (1, 1, 0, 0), (0, 1, 1, 0), (1, 0, 1, 1), (0, 0, 0, 1)]:
            attrs = "".join("%s x\n" % a for a, h in zip(ATTRS, have) if h)
            names = {a.lower() for a, h in zip(ATTRS, have) if h}
            target = "#\\#CIF_2.0\ndata_T\n_dictionary.title T\n_dictionary.other 1\n" + attrs + \
                "save_ca\n_definition.scope Category\n_definition.id CA\n" + attrs + "save_\nsave_ca.i\n_definition.scope Item\n_definition.id '_ca.i'\n" + attrs + \
                "save_\nsave_ca.j\n_definition.id '_ca.j'\n" + attrs + "save_\n"
            f = CifFile.ReadCif(io.StringIO(target), grammar="2.0")
            before = [(b, snapshot(f[b])) for b in f.keys()]
            v, n = CifFile.Validate(f, dic=lang, isdic=True)
            check([(b, snapshot(f[b])) for b in f.keys()] == before, "validation changes the dictionary", lambda: "%r: %r" % (target, f.keys()))
            for b, sc in (("t", "Dictionary"), ("ca", "Category"), ("ca.i", "Item"), ("ca.j", "Item")):
                want = set()
                if must[sc] - names:
                    want.add("check_mandatory_items")
                if mustnt[sc] & names:
                    want.add("check_prohibited_items")
                check(b in v, "definition not validated", lambda: "%r: %r" % (target, v))
                got = seen(v[b][1])
                check(got == ({"whole_block": want} if want else {}), "attributes: wrong verdict", lambda: "%r in %r: %r instead of %r" % (b, target, v[b], want))
                check(v[b][0] == (not want), "overall verdict disagrees", lambda: "%r: %r" % (b, v[b]))
                check([x.lower() for x in n[b]] == (["_dictionary.other"] if b == "t" else []), "unknown names wrong", lambda: "%r: %r" % (b, n))
                if want:
                    which = {r[0]: {x.lower() for x in r[1]["bad_items"]} for r in v[b][1]["whole_block"]}
                    check(which == {k: x for k, x in (("check_mandatory_items", must[sc] - names), ("check_prohibited_items", mustnt[sc] & names)) if x}, "wrong attributes named", lambda: "%r" % (v[b],))
                st["invalid" if want else "valid"] += 1
            # data are not held to rules for dictionaries
            data = CifFile.ReadCif(io.StringIO("#\\#CIF_2.0\ndata_x\n" + attrs + "_pa.unknown 1\n"), grammar="2.0")
            v, n = CifFile.Validate(data, dic=lang)
            check(v["x"] == (True, {}), "rules for definitions used for data", lambda: "%r: %r" % (attrs, v))

    ctx.explore("mandatory and prohibited attributes", g_valid, f_valid)
