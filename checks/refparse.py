"""Reference recognisers for token sequences (written from the CIF 1.0/1.1/2.0 and
STAR2 rules, sharing nothing with the code under test).

A token is (kind, text, value):
  data/save: heading, value = name      end: save_      name: data name
  loop  glob  stop                      val: a complete simple value
  [ ] { } ,  : punctuation              key: delimited text followed by a colon
"""


class Dead(Exception):
    """No continuation of the tokens read so far is well formed."""


class Short(Exception):
    """The input ended too early, but could be completed."""


class P(object):
    def __init__(self, toks, g):
        self.t, self.i, self.g = toks, 0, g
        self.two = g in ("2.0", "STAR2")

    def peek(self):
        return self.t[self.i][0] if self.i < len(self.t) else "eof"

    def take(self):
        tok = self.t[self.i]
        self.i += 1
        return tok

    def file(self):
        blocks, seen = [], set()
        short = False
        while self.peek() != "eof":
            if self.peek() != "data":
                raise Dead
            name = self.take()[2]
            blk = dict(name=name, items={}, loops=[], order=[], frames=[], spelled={})
            dup = name.lower() in seen
            seen.add(name.lower())
            if dup:
                raise Dead
            self.body(blk, top=True)
            blocks.append(blk)
        return blocks

    def body(self, blk, top, level=0):
        while True:
            k = self.peek()
            if k == "name":
                nm = self.take()[2]
                self.addname(blk, nm)
                blk["order"].append(nm.lower())
                blk["items"][nm.lower()] = self.value()
            elif k == "loop":
                self.take()
                self.loop(blk)
            elif k == "save":
                if not top and self.g == "2.0":
                    raise Dead
                nm = self.take()[2]
                fr = dict(name=nm, items={}, loops=[], order=[], frames=[], spelled={})
                if nm.lower() in [f["name"].lower() for f in blk["frames"]]:
                    raise Dead
                blk["frames"].append(fr)
                self.body(fr, top=False, level=level + 1)
                k2 = self.peek()
                if k2 == "eof":
                    raise Short
                if k2 != "end":
                    raise Dead
                self.take()
            else:
                return

    def addname(self, blk, nm):
        if nm.lower() in blk["spelled"]:
            raise Dead
        blk["spelled"][nm.lower()] = nm

    def value(self):
        k = self.peek()
        if k == "eof":
            raise Short
        if k == "val":
            return self.take()[2]
        if self.two and k == "[":
            self.take()
            out = []
            while True:
                k = self.peek()
                if k == "eof":
                    raise Short
                if k == "]":
                    self.take()
                    return out
                if out and self.g == "STAR2" and k == ",":   # optional between elements
                    self.take()
                out.append(self.value())
        if self.two and k == "{":
            self.take()
            out = []
            while True:
                k = self.peek()
                if k == "eof":
                    raise Short
                if k == "}":
                    self.take()
                    return {"__t": sorted(dict(out).items())}
                if out and self.g == "STAR2" and k == ",":
                    self.take()
                    k = self.peek()
                    if k == "eof":
                        raise Short
                if k != "key":
                    raise Dead
                key = self.take()[2]
                out.append((key, self.value()))
        raise Dead

    def loop(self, blk):
        names = []
        while self.peek() == "name":
            nm = self.take()[2]
            self.addname(blk, nm)
            names.append(nm)
        if self.peek() == "eof":
            raise Short
        if not names:
            raise Dead
        vals = [self.value()]
        while self.peek() in ("val", "[", "{"):
            vals.append(self.value())
        if len(vals) % len(names):
            if self.peek() == "eof":
                raise Short
            raise Dead
        low = [n.lower() for n in names]
        for i, n in enumerate(low):
            blk["items"][n] = vals[i::len(names)]
        blk["loops"].append(tuple(low))
        blk["order"].append(tuple(low))


def parse(toks, g):
    p = P(toks, g)
    out = p.file()
    return out


def status(toks, g):
    """('ok', tree) | ('short', None) | ('dead', None)"""
    try:
        return "ok", parse(toks, g)
    except Short:
        return "short", None
    except Dead:
        return "dead", None


def prefix_tree(alphabet, depth, g, start=()):
    """Every sequence up to `depth` tokens all of whose proper prefixes can still be
    completed: each well-formed or completable sequence and each one-token deviation."""
    stack = [tuple(start)]
    while stack:
        seq = stack.pop()
        s, tree = status(seq, g)
        yield seq, s
        if s != "dead" and len(seq) - len(start) < depth:
            for t in alphabet:
                stack.append(seq + (t,))


def render(toks, sep=" "):
    out = ""
    glue = True
    for k, text, _ in toks:
        if not glue and not text.startswith("\n"):
            out += sep
        out += text
        glue = k == "key"
    return out


# ------------------------------------------------------------ view of what was read
def plain(v):
    if isinstance(v, dict):
        return {"__t": [(k, plain(x)) for k, x in sorted(v.items())]}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def seen(cf):
    """The same nested structure as parse() gives, from a returned CifFile."""
    def one(key):
        b = cf.dictionary[key]
        order = []
        for o in b.GetItemOrder():
            order.append(tuple(n.lower() for n in b.loops[o]) if isinstance(o, int) else o.lower())
        kids = [k for k in cf.block_input_order if cf.child_table[k].parent == key]
        return dict(name=cf.child_table[key].block_id, items={n.lower(): plain(b[n]) for n in b.keys()},
                    loops=[tuple(n.lower() for n in l) for l in b.loops.values()], order=order,
                    spelled={n.lower(): b.true_case[n.lower()] for n in b.keys()},
                    frames=[one(k) for k in kids])
    return [one(k) for k in cf.block_input_order if cf.child_table[k].parent is None]


def norm(tree):
    """Frames are an unordered family."""
    def one(b):
        return dict(b, frames=sorted((one(f) for f in b["frames"]), key=lambda f: repr((f["name"], sorted(f["items"].items(), key=repr)))),
                    loops=sorted(b["loops"]))
    return [one(b) for b in tree]
