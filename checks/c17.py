"""C17: editing a DDLm dictionary keeps definitions, names and categories consistent."""
import io, itertools
from mc.core import check, Skip
from checks.dicbuild import *

BASE = (cat("Aa", "Loop", ["k"]) + item("Aa", "k", "Code", "Key", "Assigned") + item("Aa", "x", extra="_units.code mark1\n")
        + item("Aa", "Y", name="_bB_other", extra="_units.code mark2\n")
        + cat("bb", "Loop", ["k"], parent="aA") + item("bb", "k", "Code", "Key", "Related", extra="_name.linked_item_id '_Aa.k'\n")
        + item("bb", "x", name="_BB.x", extra="_units.code mark3\n")
        + cat("cc") + item("cc", "x", extra="_units.code mark4\n") + item("cc", "z", name="_zz.X", extra="_units.code mark5\n"))
DEEP = (cat("Aa", "Loop", ["k"]) + item("Aa", "k", "Code", "Key", "Assigned") + cat("bb", parent="Aa") + item("bb", "x", extra="_units.code mark1\n")
        + cat("dd", parent="BB") + item("dd", "x", extra="_units.code mark2\n") + item("Gone", "q", name="_gone.q", extra="_units.code mark3\n"))


class Refused(Exception):
    pass


class D:
    """one definition"""
    def __init__(self, i, cat, c, o, mark=None):
        self.id, self.cat, self.c, self.o, self.mark = i, cat, c, o, mark
        self.block = i.lstrip("_")


class Model:
    def __init__(self, which):
        self.title = "T"
        self.head = D("HEADCAT", 1, "T", "HEADCAT")
        A = [self.head, D("Aa", 1, "HEADCAT", "Aa"), D("_Aa.k", 0, "Aa", "k")]
        if which == "base":
            A += [D("_Aa.x", 0, "Aa", "x", "mark1"), D("_bB_other", 0, "Aa", "Y", "mark2"), D("bb", 1, "aA", "bb"), D("_bb.k", 0, "bb", "k"),
                  D("_BB.x", 0, "bb", "x", "mark3"), D("cc", 1, "HEADCAT", "cc"), D("_cc.x", 0, "cc", "x", "mark4"), D("_zz.X", 0, "cc", "z", "mark5")]
        else:
            A += [D("bb", 1, "Aa", "bb"), D("_bb.x", 0, "bb", "x", "mark1"), D("dd", 1, "BB", "dd"), D("_dd.x", 0, "dd", "x", "mark2"),
                  D("_gone.q", 0, "Gone", "q", "mark3")]
        self.d = A

    def get(self, n):
        for e in self.d:
            if e.id.lower() == n.lower():
                return e

    def find(self, n):
        """by definition or by the name of the block that holds it"""
        return self.get(n) or ([e for e in self.d if e.block.lower() == n.lower()] + [None])[0]

    def iscat(self, n):
        return self.get(n) is not None and self.get(n).cat

    def kids(self, c):
        return [e for e in self.d if e.c.lower() == c.lower()]

    def below(self, c):
        out = []
        for e in self.kids(c):
            out.append(e)
            if e.cat:
                out += self.below(e.id)
        return out

    def free(self, ids, moving):
        """refuse when a new name is taken by something else, or twice"""
        ids = [i.lower() for i in ids]
        if len(set(ids)) < len(ids) or any(e.id.lower() in ids for e in self.d if e not in moving):
            raise Refused

    def apply(self, op):
        a = op[0]
        if a == "add_category":
            name, parent, dangle = op[1:]
            if self.get(name) or parent is not None and not dangle and not self.iscat(parent):
                raise Refused
            if parent is not None and parent.lower() == name.lower():
                raise Refused
            up = parent
            while parent is not None and up is not None:
                up = self.get(up).c if self.get(up) else None
                if up is not None and up.lower() == name.lower():
                    raise Refused
            if self.get(parent or "") and not self.iscat(parent):
                raise Refused
            self.d.append(D(name, 1, self.head.o if parent is None else parent if dangle else self.get(parent).o, name))
        elif a == "add_definition":
            name, c, dangle = op[1:]
            o = name.split(".")[-1].strip("_")
            i = "_" + c.lower() + "." + o
            if self.get(i) or not dangle and not self.iscat(c):
                raise Refused
            self.d.append(D(i, 0, c, o))
            self.d[-1].block = i
        elif a == "remove_definition":
            e = self.find(op[1])
            if e is not None:
                gone = [e] + (self.below(e.id) if e.cat else [])
                self.d = [x for x in self.d if x not in gone]
        elif a == "change_category":
            e, c = self.find(op[1]), op[2]
            if e is None:
                raise Refused
            if e.c.lower() == c.lower() or self.get(c) is None:
                return
            if not self.iscat(c) or e is self.head or e.cat and (c.lower() == e.id.lower() or self.get(c) in self.below(e.id)):
                raise Refused
            if not e.cat:
                i = "_%s.%s" % (c, e.o)
                self.free([i], [e])
                e.id = e.block = i
            e.c = c
        elif a == "change_name":
            e, o = self.find(op[1]), op[2]
            if e is None:
                raise Refused
            i = "_%s.%s" % (e.c, o)
            self.free([i], [e])
            e.id = e.block = i
            e.o = o
        elif a == "change_category_name":
            e, n = self.get(op[1]), op[2]
            if e is None or self.get(n):
                raise Refused
            kids = self.kids(e.id)
            items = [k for k in kids if not k.cat]
            for k in items:
                self.free(["_%s.%s" % (n, k.o)], [k])
            self.free(["_%s.%s" % (n, k.o) for k in items], items)
            if e.c.lower() == n.lower():
                raise Refused
            e.id = e.o = e.block = n
            for k in kids:
                k.c = n
                if not k.cat:
                    k.id = "_%s.%s" % (n, k.o)
                    k.block = k.id[1:]
        elif a == "title":
            self.title = op[1]


def run(ctx):
    ctx.rule = ('breadth-first search over every sequence of dictionary edits (add, remove, rename, move definitions and categories, change titles) from two starting dictionaries; a state is (reference dictionary, canonical object graph); after every edit every lookup, listing, category question and the written and re-read dictionary are compared with a reference dictionary, and a refused edit must leave everything as it was')
    import CifFile
    texts = {"base": BASE, "deep": DEEP}
    from CifFile import StarFile
    REFUSE = (KeyError, ValueError, StarFile.StarError, CifFile.CifError)

    def do(d, op):
        a = op[0]
        if a == "add_category":
            d.add_category(op[1], op[2], allow_dangler=op[3])
        elif a == "add_definition":
            d.add_definition(op[1], op[2], allow_dangler=op[3])
        elif a == "title":
            [top] = [b[0] for b in d.get_roots()]
            d.change_name(top, op[1])
        else:
            getattr(d, a)(*op[1:])

    def compare(d, m, lab, live=True):
        want = {e.id.lower(): e for e in m.d}
        got = [k.lower() for k in d.keys()]
        check(sorted(got) == sorted(want), "names", lambda: "%s: the definitions are %r, not %r" % (lab(), sorted(got), sorted(want)))
        for k, e in want.items():
            for s in (k, e.id, k.upper()) + ((e.block.swapcase(),) if live else ()):
                check(s in d and d.has_key(s), "found", lambda: "%s: %r is not found" % (lab(), s))
                b = d[s]
                check(b["_definition.id"] == e.id and b["_name.category_id"].lower() == e.c.lower() and b["_name.object_id"] == e.o
                      and (b.get("_definition.scope", "Item") == "Category") == bool(e.cat) and b.get("_units.code") == e.mark,
                      "attributes", lambda: "%s: %r gives id %r, category %r, object %r, content %r; %r was expected" % (
                          lab(), s, b["_definition.id"], b["_name.category_id"], b["_name.object_id"], b.get("_units.code"), (e.id, e.c, e.o, e.mark)))
        cats = [e for e in m.d if e.cat]
        check(sorted(c.lower() for c in d.get_categories()) == sorted(e.id.lower() for e in cats), "listing", lambda: "%s: the categories are %r" % (lab(), d.get_categories()))
        for c in {e.id for e in cats} | {e.c for e in m.d if e is not m.head} | {"nowhere"}:
            for s in (c, c.upper()):
                kids = m.kids(c)
                check(sorted(x.lower() for x in d.ddlm_immediate_children(s)) == sorted(e.id.lower() for e in kids), "listing", lambda: "%s: the children of %r are %r" % (lab(), s, d.ddlm_immediate_children(s)))
                check(sorted(x.lower() for x in d.names_in_cat(s)) == sorted(e.id.lower() for e in kids if not e.cat), "listing", lambda: "%s: the items of %r are %r" % (lab(), s, d.names_in_cat(s)))
                check(sorted(x.lower() for x in d.names_in_cat(s, names_only=True)) == sorted(e.o.lower() for e in kids), "listing", lambda: "%s: the objects of %r are %r" % (lab(), s, d.names_in_cat(s, names_only=True)))
                check(sorted(x.lower() for x in d.ddlm_all_children(s)) == sorted([e.id.lower() for e in m.below(c)] + [c.lower()]), "listing", lambda: "%s: all below %r are %r" % (lab(), s, d.ddlm_all_children(s)))
        for e in m.d:
            check(d.get_ddlm_parent(e.id).lower() == e.c.lower(), "listing", lambda: "%s: the parent of %r is %r" % (lab(), e.id, d.get_ddlm_parent(e.id)))
            if not e.cat:
                try:
                    n = d.get_name_by_cat_obj(e.c, e.o)
                except KeyError:
                    n = None
                check(n in [x.id for x in m.kids(e.c) if not x.cat and x.o.lower() == e.o.lower()], "category-object", lambda: "%s: %r, %r is %r instead of %r" % (lab(), e.c, e.o, n, e.id))
        inside = [m.head] + m.below(m.head.id)
        check(sorted(x.lower() for x in d.ddlm_danglers()) == sorted(e.id.lower() for e in m.d if e not in inside), "listing", lambda: "%s: %r are not connected" % (lab(), d.ddlm_danglers()))
        check(d.get_root_category().lower() == m.head.id.lower(), "listing", lambda: "%s: the head is %r" % (lab(), d.get_root_category()))
        [top] = [b[0] for b in d.get_roots()]
        check(d.master_block["_dictionary.title"] == m.title and top.lower() == m.title.lower(), "title", lambda: "%s: block %r, title %r instead of %r" % (lab(), top, d.master_block["_dictionary.title"], m.title))

    reread = set()
    GONE = {w: tuple(e.id for e in Model(w).d) + tuple(e.block for e in Model(w).d) for w in texts}

    def run_history(h, st):
        (which, minimum), ops = h[0], h[1:]
        d = load(texts[which], do_minimum=minimum)
        m = Model(which)
        lab = lambda: "%s, %r" % (which, ops)
        for i, op in enumerate(ops):
            refused = False
            try:
                m.apply(op)
            except Refused:
                refused = True
            try:
                do(d, op)
            except REFUSE:
                check(refused, "refused", lambda: "%s: %r is refused" % (lab(), op))
            else:
                check(not refused, "accepted", lambda: "%s: %r is accepted" % (lab(), op))
        compare(d, m, lab)
        out = d.WriteOut()
        names = [l.split()[0][5:].lower() for l in out.splitlines() if l.lower().startswith("save_") and len(l.split()[0]) > 5]
        check(len(names) == len(m.d) == len(set(names)), "written", lambda: "%s: the save frames written are %r" % (lab(), names))
        compare(d, m, lab)
        state = which, m.title, tuple((e.id, e.block, e.cat, e.c, e.o, e.mark) for e in m.d)
        if (state, out) not in reread:
            if len(reread) > 20000:
                reread.clear()
            again = CifFile.CifDic(CifFile.ReadCif(io.StringIO(out), grammar="2.0"), grammar="2.0", do_minimum=True)
            compare(again, m, lambda: lab() + ", written and read", False)
            reread.add((state, out))
        st["states"] += 1
        for n in GONE[which] + ("_New.x", "_zz.x", "_other.x", "new", "zz"):
            if m.find(n) is None and n.lower() != m.title.lower():
                check(n not in d and not d.has_key(n) and d.get(n) is None, "found", lambda: "%s: %r is found" % (lab(), n))
        return (minimum,) + state, [(e.id, e.cat, e.block) for e in m.d]

    def ops_of(h, info):
        small = ctx.quick and len(h) > 1
        cats = [i for i, c, b in info if c]
        items = [i for i, c, b in info if not c]
        for i, c, b in info[1:]:
            if b != i:
                yield "remove_definition", b
                if not small:
                    yield "change_name", b, "New"
                    yield "change_category", b, cats[-1]
        other = lambda i: i.swapcase()
        for n in ("New", "Gone") if small else ("New", "aa", "zz", "Gone", "nope"):
            for p in (None, other(cats[-1])) if small else (None,) + tuple(cats[:3]) + (other(cats[-1]),):
                yield "add_category", n, p, False
            yield "add_category", n, "nope", False
            yield "add_category", n, "nope", True
            yield "add_category", n, items[0], False
        for n in ("X",) if small else ("_any.n", "X", "_q_"):
            for c in cats:
                yield "add_definition", n, c, False
            yield "add_definition", n, other(cats[1]) if len(cats) > 1 else "HeadCat", False
            yield "add_definition", n, "nope", False
            yield "add_definition", n, "Nope", True
        for i in items + cats[1:]:
            yield "remove_definition", i
        yield "remove_definition", other(items[-1]) if items else "q"
        yield "remove_definition", "nothing"
        for i in items[::2] if small else items:
            for c in cats:
                yield "change_category", i, c
            yield "change_category", other(i), other(cats[-1])
            yield "change_category", i, "nope"
            for o in ("X", "New") if small else ("x", "X", "z", "New"):
                yield "change_name", i, o
        yield "change_category", items[0] if items else "q", items[-1] if items else "q"
        for c in cats[1:]:
            for c2 in cats:
                yield "change_category", c, c2
            for n in ("zz", "Other") if small else ("zz", "Cc", "Other"):
                yield "change_category_name", c, n
            yield "change_category_name", other(c), "other"
        yield "change_category_name", cats[0], "root"
        yield "change_category_name", "nothing", "root"
        yield "title", "title%d" % len(h)
    inits = [((w, mi),) for w, mi in (("base", False), ("deep", True)) + (() if ctx.quick else (("base", True), ("deep", False)))]
    ctx.bfs("edits of a dictionary", inits, ops_of, run_history, 2 if ctx.quick else 3)
