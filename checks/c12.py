"""C12  Objects live exactly as long as something refers to them; identity is stable.

Bounded space: every sequence of operations up to the depth that create objects, put them into members, lists, dict keys and
values, sets, tuples, indexes, tags and other objects, take them out again by every route (overwriting, deleting, clearing,
replacing the container, dropping its owner) and hold or drop a Python variable, with every barrier pattern and in atomic blocks
that complete or are cancelled.  The reference is a graph with one count per occurrence; after every operation every object that
must exist is fetched by its uuid and its reference count compared, and after the commits and the re-opening every object that
must be gone is looked for.
"""
import copy
import gc
import itertools
import dbzero as db0
import coll
import session as S
from coll import Kind

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of reference histories on the real library against a reference-counting graph"
ASSUMPTIONS = ["single process, single thread", "cycles are not collected (reference counting is documented)"]


@db0.memo
class LC:
    def __init__(self, i):
        self.i = i


@db0.memo
class LO:
    def __init__(self, i):
        self.i = i
        self.x = None
        self.c = LC(i + 1)
        self.l = [LC(i + 2)]


@db0.memo
class LG:
    def __init__(self, n):
        self.n, self.m, self.l, self.d, self.s, self.t, self.ix = n, None, [], {}, set(), None, db0.index()


class Live:
    """A group: its stored object, the Python variable and the uuids of all objects ever made."""
    def __init__(self, g):
        self.g, self.v, self.next, self.uuids = g, None, 0, {}


class Node:
    def __init__(self, k):
        self.k, self.x, self.l, self.tags = k, None, [], set()

    def refs(self):
        return [self.x] * (self.x is not None) + self.l


class Ref:
    """The same group as a graph; node 'g' is the stored group object."""
    def __init__(self):
        self.n, self.v, self.next = {}, None, 0
        self.reset()

    def reset(self):
        self.m, self.l, self.dv, self.dk, self.s, self.t, self.ix = None, [], None, [], set(), None, set()

    def make(self, k):
        i = self.next
        self.next += {"O": 3, "L": 4}[k]
        if k == "L":
            self.n[i] = Node("L")
            self.n[i].l = [i + 1]
            j = i + 1
        else:
            j = i
        o = self.n[j] = Node("O")
        o.l = [j + 1, j + 2]
        self.n[j + 1], self.n[j + 2] = Node("C"), Node("C")
        return i

    def counts(self):
        c = dict.fromkeys(self.n, 0)
        for r in [self.m, self.dv]:
            if r is not None:
                c[r] += 1
        for r in self.l + (self.t or []) + self.dk + list(self.s) + [i for _, i in self.ix]:
            c[r] += 1
        for n in self.n.values():
            for r in n.refs():
                c[r] += 1
        for i, n in self.n.items():
            c[i] += len(n.tags)
        return c

    def settle(self):
        """Delete whatever is not referred to."""
        while True:
            dead = [i for i, c in self.counts().items() if c == 0 and i != self.v]
            if not dead:
                return
            for i in dead:
                del self.n[i]

    def is_o(self, i):
        return i is not None and self.n[i].k == "O"


def ser(o):
    """The serial number of an object of the group (for a list its first element's, minus one)."""
    return o[0].i - 1 if type(o).__name__ in ("ListObject", "List", "list") or not hasattr(o, "i") else o.i


def is_obj(v):
    return v is not None and hasattr(v, "i")


OPS = {}


def both(name, live, ref):
    OPS[name] = lambda g, E, a=live, b=ref: b(g) if isinstance(g, Ref) else a(g)


def new_o(g):
    g.v = LO(g.next)
    note(g, g.v)
    g.next += 3


def note(g, o):
    g.uuids[o.i] = db0.uuid(o)
    g.uuids[o.i + 1] = db0.uuid(o.c)
    g.uuids[o.i + 2] = db0.uuid(o.l[0])


def new_l(g):
    o = LO(g.next + 1)
    note(g, o)
    g.v = db0.list([o])
    g.next += 4


def setv(k):
    def f(r):
        r.v = r.make(k)
    return f


both("new object", new_o, setv("O"))
both("new list", new_l, setv("L"))


def drop(g):
    g.v = None


both("drop variable", drop, drop)


def have(f):
    """Only with something in the variable."""
    return lambda g: f(g) if g.v is not None else None


def obj(f):
    """Only with a memo object in the variable."""
    return lambda g: f(g) if (g.is_o(g.v) if isinstance(g, Ref) else is_obj(g.v)) else None


def assign(attr, val):
    def f(g):
        setattr(g.g, attr, val(g))
    return f


def rassign(attr, val):
    def f(r):
        setattr(r, attr, val(r))
    return f


V = lambda g: g.v
both("m=v", have(assign("m", V)), have(rassign("m", V)))
both("l.append(v)", have(lambda g: g.g.l.append(g.v)), have(lambda r: r.l.append(r.v)))
both("d[k]=v", have(lambda g: g.g.d.__setitem__("k", g.v)), have(rassign("dv", V)))
both("d[v]=1", obj(lambda g: g.g.d.__setitem__(g.v, 1)), obj(lambda r: r.dk.append(r.v) if r.v not in r.dk else None))
both("s.add(v)", obj(lambda g: g.g.s.add(g.v)), obj(lambda r: r.s.add(r.v)))
both("t=(1,v)", have(assign("t", lambda g: (1, g.v, g.v.c, g.v) if is_obj(g.v) else (1, g.v))), have(rassign("t", lambda r: [r.v, r.v + 1, r.v] if r.is_o(r.v) else [r.v])))
both("ix.add(1,v)", obj(lambda g: g.g.ix.add(1, g.v)), obj(lambda r: r.ix.add((1, r.v))))
both("tag(v,t)", obj(lambda g: db0.tags(g.v).add(f"t{g.g.n}")), obj(lambda r: r.n[r.v].tags.add("t")))
both("v.x=v", obj(lambda g: setattr(g.v, "x", g.v)), obj(lambda r: setattr(r.n[r.v], "x", r.v)))
both("v.x=None", obj(lambda g: setattr(g.v, "x", None)), obj(lambda r: setattr(r.n[r.v], "x", None)))
both("v.x=m", obj(lambda g: setattr(g.v, "x", g.g.m)), obj(lambda r: setattr(r.n[r.v], "x", r.m)))
both("m.x=v", have(lambda g: setattr(g.g.m, "x", g.v) if is_obj(g.g.m) else None), have(lambda r: setattr(r.n[r.m], "x", r.v) if r.is_o(r.m) else None))
both("v.l.append(m)", obj(lambda g: g.v.l.append(g.g.m) if g.g.m is not None else None), obj(lambda r: r.n[r.v].l.append(r.m) if r.m is not None else None))
both("m=None", assign("m", lambda g: None), rassign("m", lambda r: None))


def delm(g):
    del g.g.m
    g.g.m = None


both("del m", delm, rassign("m", lambda r: None))
both("m=l[0]", lambda g: setattr(g.g, "m", g.g.l[0]) if len(g.g.l) else None, lambda r: setattr(r, "m", r.l[0]) if r.l else None)
both("m=new", lambda g: (keep := g.v, new_o(g), setattr(g.g, "m", g.v), setattr(g, "v", keep), None)[-1], lambda r: setattr(r, "m", r.make("O")))
both("l.clear()", lambda g: g.g.l.clear(), lambda r: r.l.clear())
both("l.pop(0)", lambda g: (g.g.l.pop(0), None)[1] if len(g.g.l) else None, lambda r: (r.l.pop(0), None)[1] if r.l else None)


def dell(g):
    if isinstance(g, Ref):
        if g.l:
            del g.l[-1]
    elif len(g.g.l):
        del g.g.l[-1]


both("del l[-1]", dell, dell)
both("l[0]=1?", lambda g: (g.g.l.__setitem__(0, g.g.m), None)[1] if len(g.g.l) and g.g.m is not None else None, lambda r: r.l.__setitem__(0, r.m) if r.l and r.m is not None else None)
both("l=[]", assign("l", lambda g: []), rassign("l", lambda r: []))
both("l=l+l", lambda g: setattr(g.g, "l", list(g.g.l) + list(g.g.l)) if len(g.g.l) < 4 else None, lambda r: setattr(r, "l", r.l + r.l) if len(r.l) < 4 else None)


def rclear(r):
    r.dv, r.dk = None, []


both("d.clear()", lambda g: g.g.d.clear(), rclear)
both("d={}", assign("d", lambda g: {}), rclear)
both("del d[k]", lambda g: (g.g.d.pop("k", None), None)[1], rassign("dv", lambda r: None))
both("d.pop(v)", obj(lambda g: (g.g.d.pop(g.v, None), None)[1]), obj(lambda r: r.dk.remove(r.v) if r.v in r.dk else None))
both("s.clear()", lambda g: g.g.s.clear(), lambda r: r.s.clear())
both("s={}", assign("s", lambda g: set()), rassign("s", lambda r: set()))
both("s.pop()", lambda g: (g.g.s.pop(), None)[1] if len(g.g.s) == 1 else None, lambda r: (r.s.pop(), None)[1] if len(r.s) == 1 else None)
both("s.discard(v)", obj(lambda g: g.g.s.discard(g.v)), obj(lambda r: r.s.discard(r.v)))
both("t=None", assign("t", lambda g: None), rassign("t", lambda r: None))
both("ix.remove(1,v)", obj(lambda g: g.g.ix.remove(1, g.v)), obj(lambda r: r.ix.discard((1, r.v))))
both("ix=new", assign("ix", lambda g: db0.index()), rassign("ix", lambda r: set()))
both("untag(v,t)", obj(lambda g: db0.tags(g.v).remove(f"t{g.g.n}")), obj(lambda r: r.n[r.v].tags.discard("t")))


def untag_all(g):
    for o in list(db0.find(f"t{g.g.n}")):
        db0.tags(o).remove(f"t{g.g.n}")


both("untag all", untag_all, lambda r: ([n.tags.clear() for n in r.n.values()], None)[1])
both("v=m", lambda g: setattr(g, "v", g.g.m), lambda r: setattr(r, "v", r.m))
both("v=l[0]", lambda g: setattr(g, "v", g.g.l[0]) if len(g.g.l) else None, lambda r: setattr(r, "v", r.l[0]) if r.l else None)


def rregroup(r):
    r.reset()


def replace(g):
    n = g.g.n
    g.g = None
    HOLDERS[n].c = LG(n)
    g.g = HOLDERS[n].c


both("new group", replace, rregroup)
HOLDERS = []
PUT = ["m=v", "l.append(v)", "d[k]=v", "d[v]=1", "s.add(v)", "t=(1,v)", "ix.add(1,v)", "tag(v,t)", "v.x=v", "m.x=v", "v.l.append(m)"]
TAKE = [o for o in OPS if o not in PUT and not o.startswith("new")]


def start(kind, puts, hold):
    """(live, reference) of a start: an object put into some places, the variable kept or not"""
    def f(E):
        r = Ref()
        if kind:
            OPS["new object" if kind == "O" else "new list"](r, None)
        for p in puts:
            OPS[p](r, None)
        if not hold:
            r.v = None
        r.settle()
        r.kind, r.puts, r.hold = kind, puts, hold
        return r
    return f


STARTS = {"empty": start("", [], 0), "var": start("O", [], 1), "m": start("O", ["m=v"], 0), "m,var": start("O", ["m=v"], 1),
          "m,l,var": start("O", ["m=v", "l.append(v)"], 1), "list in m": start("L", ["m=v"], 0), "list in l,t": start("L", ["l.append(v)", "t=(1,v)"], 0)}
for p in PUT[1:9]:
    STARTS[p + " only"] = start("O", [p], 0)
    STARTS[p + ",var"] = start("O", [p], 1)
STARTS["all"] = start("O", PUT[:8], 1)
STARTS["all, no var"] = start("O", PUT[:8], 0)


def make(r):
    g = Live(LG(len(HOLDERS2)))
    HOLDERS2.append(g)
    if r.kind:
        OPS["new object" if r.kind == "O" else "new list"](g, None)
    for p in r.puts:
        OPS[p](g, None)
    if not r.hold:
        g.v = None
    return g


HOLDERS2 = []


def idof(v):
    if v is None:
        return None
    return v.i if is_obj(v) else v[0].i - 1


def content(g):
    if isinstance(g, Ref):
        return (g.m, tuple(g.l), g.dv, tuple(sorted(g.dk)), tuple(sorted(g.s)), g.t and tuple(g.t), tuple(sorted(g.ix)),
                tuple(sorted(i for i, n in g.n.items() if n.tags)), g.v)
    h = g.g
    return (idof(h.m), tuple(idof(o) for o in h.l), idof(h.d["k"]) if "k" in h.d else None, tuple(sorted(k.i for k in h.d if is_obj(k))),
            tuple(sorted(o.i for o in h.s)), None if h.t is None else tuple(idof(o) for o in list(h.t)[1:]), tuple(sorted((1, o.i) for o in h.ix.select(1, 1))),
            tuple(sorted(o.i for o in db0.find(f"t{h.n}"))), idof(g.v))


class Batch(coll.Batch):
    destroys = False

    def prepare(self, root):
        global HOLDERS
        HOLDERS = []
        HOLDERS2.clear()

    def handles(self):
        global HOLDERS
        root = coll.CRoot()
        self.E = list(root.elems)
        HOLDERS = list(root.holders)
        if self.H is None:
            self.H = [Live(None) for _ in HOLDERS]
            for l, (nx, u) in zip(self.H, self.saved):
                l.next, l.uuids = nx, u
        for l, h in zip(self.H, HOLDERS):
            l.g = h.c

    def run(self):
        global HOLDERS
        try:
            super().run()
        finally:
            HOLDERS = []
            HOLDERS2.clear()

    def all_steps(self, s):
        mode = self.pattern.split("|")[1][s] if "|" in self.pattern else "."
        if mode == ".":
            self.step_each(s)
        else:
            before = copy.deepcopy(self.R)
            held = [id(h.v) if h.v is not None else None for h in self.H]
            with db0.atomic() as a:
                self.step_each(s)
                if mode == "X":
                    a.cancel()
            if mode == "X":
                for i, b in enumerate(before):
                    v = self.R[i].v
                    if v not in b.n and v is not None:      # made in the block
                        v = self.H[i].v = None
                    b.v = v
                    for k in [k for k in self.H[i].uuids if k >= b.next]:
                        self.gone.append((i, self.H[i].uuids.pop(k)))
                    self.H[i].next = b.next
                self.R = before
                for i, h in enumerate(HOLDERS):
                    self.H[i].g = h.c
        for r in self.R:
            r.settle()

    def stored(self, g):
        return g.g

    def barrier(self, b):
        global HOLDERS
        if not HOLDERS:
            self.gone = []
            HOLDERS = list(coll.CRoot().holders)
        if b in "rw":
            self.saved = [(h.next, h.uuids) for h in self.H]
            for h in self.H:
                h.v = h.g = None
            self.H = None
            HOLDERS = []
            HOLDERS2.clear()
            for r in self.R:
                r.v = None
                r.settle()
        elif b == "f":
            for h in self.H:
                h.g = None
            self.handles()
            return
        super().barrier(b)

    def compare(self, where):
        super().compare(where)
        gc.collect()
        strict = where != "live" and not where.startswith("after operation")
        for i, r in enumerate(self.R):
            if i in self.bad:
                continue
            cs = r.counts()
            for s, u in self.H[i].uuids.items():
                alive = s in r.n
                try:
                    there = db0.exists(u)
                    if alive:
                        if not there:
                            self.fail(i, "a referenced object is gone", f"{where}: object {s} (references {cs[s]}, variable {r.v}) does not exist")
                            break
                        o = db0.fetch(u)
                        if o.i != s or db0.uuid(o) != u:
                            self.fail(i, "a uuid leads to another object", f"{where}: object {s}: {o.i} {db0.uuid(o)} {u}")
                            break
                        if r.v == s and o is not self.H[i].v:
                            self.fail(i, "an object has two identities", f"{where}: object {s}")
                            break
                        n = db0.getrefcount(o)
                        o = None
                        if n < cs[s] or strict and n != cs[s]:      # a dropped container may release its elements at the next commit
                            self.fail(i, "the reference count is wrong", f"{where}: object {s}: {n}, references {cs[s]}")
                            break
                    elif there and strict:
                        self.fail(i, "an object nothing refers to still exists", f"{where}: object {s}")
                        break
                except Exception as e:
                    self.fail(i, "an object cannot be fetched", f"{where}: object {s} (references {cs.get(s)}): {type(e).__name__}: {e}")
                    break
            o = None
            self.ctx.count("lifetimes", len(self.H[i].uuids))
        if strict:
            known = {u for h in self.H for u in h.uuids.values()}
            for i, u in self.gone:
                if i not in self.bad and u not in known and db0.exists(u):
                    self.fail(i, "an object made in a cancelled block exists", f"{where}: {u}")

    def refcounts(self, where):
        pass


KIND = Kind("lifetime", make, STARTS, OPS, {}, content)
SMALL = ["new object", "drop variable", "m=v", "m=None", "l.append(v)", "l.clear()", "tag(v,t)", "untag(v,t)", "ix.add(1,v)", "ix.remove(1,v)", "v=m", "d[k]=v", "d.clear()"]


def plan(tier):
    res = []
    t = lambda *a, **kw: coll.tasks(KIND, *a, **kw)
    if tier == "quick":
        res += t(1, list(STARTS), ["none", "clear", "reopen", "handles", "none/X", "none/A", "commit/X", "commit/A"], batch=120)
        res += t(2, ["empty", "m,l,var", "list in l,t", "all"], ["none", "commit", "clear"], batch=250)
        res += t(2, ["all, no var", "m,var", "list in m"], ["reopen", "none/X.", "none/.X", "commit/X.", "commit/.X", "none/XX", "commit/AX"], batch=250)
        res += t(3, ["var", "m", "all", "list in l,t"], ["none", "mixed", "none/.X."], SMALL, batch=250)
    else:
        res += t(2, list(STARTS), ["none", "commit", "clear", "reopen", "handles"], batch=250)
        res += t(2, ["m,l,var", "list in l,t", "all", "all, no var", "m,var"], [b + "/" + m for b in ("none", "commit") for m in map("".join, itertools.product(".XA", repeat=2)) if m != ".."], batch=250)
        res += t(3, ["empty", "all"], ["none", "mixed"], batch=250)
        res += t(4, ["var", "m"], ["none", "mixed", "commit"], SMALL, batch=250)
    return res


def run_task(t, ctx):
    coll.run_task(KIND, t, ctx, Batch)
