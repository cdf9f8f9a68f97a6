"""C11  Tag queries return exactly the matching objects.

Bounded space: every sequence of tagging, untagging, replacing and bulk operations up to the depth over a group of objects of a
class, its subclass and another class and five kinds of tags (two strings, an object, an object of another prefix, an enum
value), from several start assignments, with every barrier pattern and with operations in atomic blocks that complete or are
cancelled.  After the sequence a family of query expressions (conjunctions, alternatives, exclusions, sub-queries, types, up to
three atoms in every nesting) is evaluated by the query engine and by set algebra.
"""
import gc
import itertools
import dbzero as db0
import coll
import session as S
from coll import Kind

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of tagging histories on the real query engine, every query expression up to a size compared with set algebra"
ASSUMPTIONS = ["single process, single thread", "a negation needs a positive condition beside it, a type must come first: other forms are rejected by the library"]
QX = "q"
TAGS = ("t", "u", "X", "F", "R")          # string, string, object, foreign object, enum value


@db0.enum(values=["RED", "BLUE"])
class Col11:
    pass


@db0.memo
class TA:
    def __init__(self, i, n):
        self.i, self.n = i, n


@db0.memo
class TB(TA):
    def __init__(self, i, n):
        super().__init__(i, n)


@db0.memo
class TC:
    def __init__(self, i, n):
        self.i, self.n = i, n


@db0.memo
class TX:
    def __init__(self, n):
        self.n = n


@db0.memo
class G:
    def __init__(self, n, o, x):
        self.n, self.o, self.x, self.next = n, o, x, 3


@db0.memo(prefix=QX)
class F11:
    def __init__(self, n):
        self.n = n


@db0.memo(singleton=True, prefix=QX)
class FRoot:
    def __init__(self):
        self.f = []


CLS = [TA, TB, TC]
FS = []


class RG:
    """The reference: the objects of a group with their tags."""
    def __init__(self, tags):
        self.tags = {i: set(t) for i, t in enumerate(tags)}      # of all objects that exist
        self.cls = {i: i for i in range(3)}
        self.o = [0, 1, 2]
        self.next = 3
        self.dead = set()          # neither referenced nor tagged: when they leave the type queries is not specified before a commit

    def drop_dead(self):
        for i in list(self.tags):
            if i not in self.o and not self.tags[i]:
                del self.tags[i], self.cls[i]
                self.dead.add(i)

    def has(self, t):
        return {i for i, s in self.tags.items() if t in s}

    def of(self, c):
        return {i for i, k in self.cls.items() if k == c or (c == 0 and k == 1)}


def tagval(g, t):
    return f"{t}{g.n}" if t in ("t", "u") else db0.as_tag(g.x) if t == "X" else db0.as_tag(FS[g.n]) if t == "F" else Col11.RED


def change(what, objs, tags, aslist=False):
    def f(g, E):
        if isinstance(g, RG):
            for o in objs:
                if what == "add":
                    g.tags[g.o[o]].update(tags)
                else:
                    g.tags[g.o[o]].difference_update(tags)
            return
        m = db0.tags(*[g.o[o] for o in objs])
        v = [tagval(g, t) for t in tags]
        getattr(m, what)(v) if aslist else getattr(m, what)(*v)
    return f


def raw(what, o, t):
    """the object itself instead of its tag"""
    def f(g, E):
        if isinstance(g, RG):
            return change(what, [o], [t])(g, E)
        getattr(db0.tags(g.o[o]), what)(g.x if t == "X" else FS[g.n])
    return f


def replace(o):
    def f(g, E):
        if isinstance(g, RG):
            g.o[o] = g.next
            g.tags[g.next], g.cls[g.next] = set(), o
            g.next += 1
            g.drop_dead()
            return
        k = g.next
        g.next = k + 1
        g.o[o] = CLS[o](k, g.n)
    return f


def seq(*fs):
    def f(g, E):
        for x in fs:
            x(g, E)
    return f


def look(g, E):
    if isinstance(g, RG):
        return
    len(db0.find(f"t{g.n}"))


def rename(g, E):
    """an object tags itself in its constructor"""
    if isinstance(g, RG):
        replace(0)(g, E)
        g.tags[g.o[0]].add("t")
        return
    k = g.next
    g.next = k + 1
    g.o[0] = TS(k, g.n)


@db0.memo
class TS(TA):
    def __init__(self, i, n):
        super().__init__(i, n)
        db0.tags(self).add(f"t{n}")


def bad(g, E):
    if isinstance(g, RG):
        raise RuntimeError()
    db0.tags(g.o[0]).add(5)


OPS = {}
for o in range(3):
    for t in TAGS:
        for w in ("add", "remove"):
            OPS[f"{w} {t} o{o}"] = change(w, [o], [t])
for o in range(3):
    OPS[f"replace o{o}"] = replace(o)
OPS.update({"add [t,u] o0": change("add", [0], ["t", "u"], True), "add [u,F,X] o1": change("add", [1], ["u", "F", "X"], True),
            "remove [t,F] o0": change("remove", [0], ["t", "F"], True), "remove all o0": change("remove", [0], TAGS),
            "remove all o1, replace o1": seq(change("remove", [1], TAGS), replace(1)),
            "add t o0 o1 o2": change("add", [0, 1, 2], ["t"]), "remove t o0 o1 o2": change("remove", [0, 1, 2], ["t"]),
            "add t, remove t o0": seq(change("add", [0], ["t"]), change("remove", [0], ["t"])),
            "remove t, add t o0": seq(change("remove", [0], ["t"]), change("add", [0], ["t"])),
            "add F, remove F o0": seq(change("add", [0], ["F"]), change("remove", [0], ["F"])),
            "add object X o0": raw("add", 0, "X"), "remove object X o0": raw("remove", 0, "X"),
            "add object F o0": raw("add", 0, "F"), "remove object F o0": raw("remove", 0, "F"),
            "add t twice o0": change("add", [0], ["t", "t"]), "find": look, "self-tagging o0": rename, "bad tag": bad})
ATOMS = ("t", "u", "X", "F", "R")


def content(g):
    if isinstance(g, RG):
        return (tuple(tuple(sorted(g.has(t))) for t in ATOMS[:4]), tuple(1 + len(g.tags[i]) for i in g.o))
    return (tuple(tuple(sorted(o.i for o in db0.find(tagval(g, t)))) if t != "F" else tuple(sorted(o.i for o in db0.find(tagval(g, t), prefix=coll.PX))) for t in ATOMS[:4]),
            tuple(db0.getrefcount(o) for o in g.o))


def queries():
    """(name, live arguments from a tag-valued function v, expected ids from a set-valued function s); negation only beside a positive part"""
    find, no = lambda *q: db0.find(*q, prefix=coll.PX), db0.no
    r = []
    for a in ATOMS[:4]:
        r.append((f"{a}", lambda v, a=a: (v(a),), lambda s, a=a: s(a)))
        for c in range(3):
            r.append((f"{CLS[c].__name__},{a}", lambda v, a=a, c=c: (CLS[c], v(a)), lambda s, a=a, c=c: s(c) & s(a)))
            r.append((f"{CLS[c].__name__},no {a}, one of t u X F", lambda v, a=a, c=c: (CLS[c], [v(x) for x in "tuXF"], no(v(a))),
                      lambda s, a=a, c=c: s(c) & (s("t") | s("u") | s("X") | s("F")) - s(a)))
    for a, b in [("t", "u"), ("u", "t"), ("t", "X"), ("X", "t"), ("t", "F"), ("F", "t"), ("t", "R"), ("X", "F"), ("t", "t")]:
        for n, q, w in ((f"{a},{b}", lambda v: (v(a), v(b)), lambda s: s(a) & s(b)),
                        (f"[{a},{b}]", lambda v: ([v(a), v(b)],), lambda s: s(a) | s(b)),
                        (f"({a},{b})", lambda v: ((v(a), v(b)),), lambda s: s(a) & s(b)),
                        (f"{a},no {b}", lambda v: (v(a), no(v(b))), lambda s: s(a) - s(b)),
                        (f"{a},[{b},nothing]", lambda v: (v(a), [v(b), "nothing"]), lambda s: s(a) & s(b)),
                        (f"[({a},{b}),nothing]", lambda v: ([(v(a), v(b)), "nothing"],), lambda s: s(a) & s(b)),
                        (f"TA,{a},no {b}", lambda v: (TA, v(a), no(v(b))), lambda s: s(0) & s(a) - s(b)),
                        (f"TA,[{a},{b}]", lambda v: (TA, [v(a), v(b)]), lambda s: s(0) & (s(a) | s(b))),
                        (f"{a},find({b})", lambda v: (v(a), find(v(b))), lambda s: s(a) & s(b)),
                        (f"{a},find(TA,{b})", lambda v: (v(a), find(TA, v(b))), lambda s: s(a) & s(b) & s(0)),
                        (f"{a},no find({b})", lambda v: (v(a), no(find(v(b)))), lambda s: s(a) - s(b)),
                        (f"{a},no find(TA,{b})", lambda v: (v(a), no(find(TA, v(b)))), lambda s: s(a) - (s(b) & s(0))),
                        (f"[{a},find({b})]", lambda v: ([v(a), find(v(b))],), lambda s: s(a) | s(b))):
            if b == "R" and n not in (f"{a},{b}", f"({a},{b})", f"{a},no {b}", f"{a},find({b})", f"TA,{a},no {b}"):
                continue
            r.append((n, (lambda q, a, b: lambda v: bind(q, a, b)(v))(q, a, b), (lambda w, a, b: lambda s: bind(w, a, b)(s))(w, a, b)))
    for a, b, c in [("t", "X", "F"), ("F", "t", "u"), ("u", "F", "t"), ("X", "u", "R")]:
        for n, q, w in ((f"{a},{b},{c}", lambda v: (v(a), v(b), v(c)), lambda s: s(a) & s(b) & s(c)),
                        (f"[{a},({b},{c})]", lambda v: ([v(a), (v(b), v(c))],), lambda s: s(a) | s(b) & s(c)),
                        (f"([{a},{b}],{c})", lambda v: (([v(a), v(b)], v(c)),), lambda s: (s(a) | s(b)) & s(c)),
                        (f"{a},{b},no {c}", lambda v: (v(a), v(b), no(v(c))), lambda s: s(a) & s(b) - s(c)),
                        (f"[{a},{b}],no {c}", lambda v: ([v(a), v(b)], no(v(c))), lambda s: (s(a) | s(b)) - s(c)),
                        (f"{a},no {b},no {c}", lambda v: (v(a), no(v(b)), no(v(c))), lambda s: s(a) - s(b) - s(c)),
                        (f"{a},no [{b},{c}]", lambda v: (v(a), no([v(b), v(c)])), lambda s: s(a) - (s(b) | s(c))),
                        (f"{a},no ({b},{c})", lambda v: (v(a), no((v(b), v(c)))), lambda s: s(a) - (s(b) & s(c))),
                        (f"find({a},no {b}),{c}", lambda v: (find(v(a), no(v(b))), v(c)), lambda s: (s(a) - s(b)) & s(c)),
                        (f"{c},find({a},no {b})", lambda v: (v(c), find(v(a), no(v(b)))), lambda s: (s(a) - s(b)) & s(c)),
                        (f"{a},no find({b},no {c})", lambda v: (v(a), no(find(v(b), no(v(c))))), lambda s: s(a) - (s(b) - s(c))),
                        (f"[find({a},{b}),find({b},no {c})]", lambda v: ([find(v(a), v(b)), find(v(b), no(v(c)))],), lambda s: s(a) & s(b) | (s(b) - s(c))),
                        (f"[{a},{b}],[{a},{c}]", lambda v: ([v(a), v(b)], [v(a), v(c)]), lambda s: (s(a) | s(b)) & (s(a) | s(c)))):
            if c == "R" and ("no" not in n or "no [" in n):
                continue
            r.append((n, (lambda q, a, b, c: lambda v: bind(q, a, b, c)(v))(q, a, b, c), (lambda w, a, b, c: lambda s: bind(w, a, b, c)(s))(w, a, b, c)))
    return r


def bind(f, *abc):
    """the closure f with its loop variables fixed"""
    import types
    names = f.__code__.co_freevars
    vals = dict(zip("abc", abc))
    cells = tuple(types.CellType(vals[n]) if n in vals else f.__closure__[i] for i, n in enumerate(names))
    return types.FunctionType(f.__code__, f.__globals__, closure=cells)


QUERIES = [(n, q, w) for n, q, w in queries()]


class Batch(coll.Batch):
    destroys = False

    def prepare(self, root):
        global FS
        db0.open(QX, "rw")
        fr = FRoot()
        for i in range(len(self.seqs)):
            fr.f.append(F11(i))
        FS = list(fr.f)
        db0.open(coll.PX, "rw")
        global NEW
        NEW = itertools.count()

    def handles(self):
        global FS
        super().handles()
        FS = list(FRoot().f)
        db0.open(coll.PX, self.mode)

    def barrier(self, b):
        global FS
        if b in "rw":
            self.mode = "r" if b == "r" else "rw"
            self.H = self.E = FS = None
            gc.collect()
            db0.commit()
            S.stop()
            S.start(self.d, QX, self.mode)
            db0.open(coll.PX, self.mode)
            self.handles()
        else:
            self.mode = "rw"
            super().barrier(b)

    def all_steps(self, s):
        super().all_steps(s)
        for r in self.R:
            r.drop_dead()

    def compare(self, where):
        super().compare(where)
        if where not in ("live", "after re-opening read-only"):
            return
        full = where == "live"
        for i in range(len(self.R)):
            if i not in self.bad:
                try:
                    self.ask(i, where, QUERIES if full else QUERIES[::3])
                except RecursionError:
                    raise
                except Exception as e:
                    self.fail(i, "a query raises", f"{where}: tags {self.R[i].tags}: {type(e).__name__}: {e}")
        if self.bad:
            return
        # the whole prefix
        every = [(i, r) for i, r in enumerate(self.R)]
        for n, q, w in (("TA", (TA,), lambda r: r.of(0)), ("TB", (TB,), lambda r: r.of(1)), ("TC", (TC,), lambda r: r.of(2)),
                        ("RED", (Col11.RED,), lambda r: r.has("R")), ("TA,RED", (TA, Col11.RED), lambda r: r.of(0) & r.has("R")),
                        ("TA,no TB", (TA, db0.no(db0.find(TB))), lambda r: r.of(0) - r.of(1)), ("TA,no RED", (TA, db0.no(Col11.RED)), lambda r: r.of(0) - r.has("R")),
                        ("[RED,BLUE]", ([Col11.RED, Col11.BLUE],), lambda r: r.has("R")), ("BLUE", (Col11.BLUE,), lambda r: set())):
            try:
                got = sorted((o.n, o.i) for o in db0.find(*q) if full is False or o.i not in self.R[o.n].dead)
            except Exception as e:
                got = f"{type(e).__name__}: {e}"
            want = sorted((i, x) for i, r in every for x in w(r))
            self.ctx.count("queries")
            if got != want:
                if len(self.seqs) == 1:
                    self.fail(0, f"find({n}) gives the wrong objects", f"{where}: dbzero {got}, expected {want}")
                else:
                    self.narrow = True
                return

    def ask(self, i, where, qs):
        g, r = self.H[i], self.R[i]
        objs = list(g.o)
        v = {t: tagval(g, t) for t in TAGS}
        sets = {t: r.has(t) for t in TAGS}
        sets.update({c: r.of(c) for c in range(3)})
        for n, q, w in qs:
            args, want = q(v.__getitem__), sorted(w(sets.__getitem__))
            res = db0.find(*args, prefix=coll.PX)
            got = sorted(o.i for o in res)
            if got != want:
                return self.fail(i, f"find({n}) gives the wrong objects", f"{where}: find({n}) gives {got}, expected {want}; tags {r.tags}")
            if len(res) != len(want):
                return self.fail(i, f"the length of find({n}) is wrong", f"{where}: {len(res)}, expected {len(want)}; tags {r.tags}")
            if bool(res) != bool(want):
                return self.fail(i, f"the truth value of find({n}) is wrong", f"{where}: {bool(res)}, expected {bool(want)}; tags {r.tags}")
            if [o.i in want for o in objs] != [o in res for o in objs]:
                return self.fail(i, f"membership in find({n}) is wrong", f"{where}: expected {want}; tags {r.tags}")
        self.ctx.count("queries", len(qs))

    def refcounts(self, where):
        pass                                   # compared per object with the contents


NEW = itertools.count()


def make(r):
    n = next(NEW)
    g = G(n, [CLS[i](i, n) for i in range(3)], TX(n))
    for i in range(3):
        for t in sorted(r.tags[i]):
            db0.tags(g.o[i]).add(tagval(g, t))
    return g


STARTS = {"none": ("", "", ""), "some": ("t", "tu", "XF"), "full": ("tuXFR",) * 3, "same": ("t", "t", "t")}
KIND = Kind("tags", make, {n: (lambda p: lambda E: RG(p))(p) for n, p in STARTS.items()}, OPS, {}, content)
CORE = [o for o in OPS if o.split()[-1] in ("o0", "o1") and not any(x in o for x in ("u o", "R o", "object", "[u,"))] + ["find", "self-tagging o0"]
CORE = list(dict.fromkeys(CORE))
SMALL = ["add t o0", "remove t o0", "add t o1", "remove t o1", "add F o0", "remove F o0", "add X o0", "remove X o0", "replace o0", "find", "self-tagging o0"]


def plan(tier):
    res = []
    t = lambda *a, **kw: coll.tasks(KIND, *a, **kw)
    if tier == "quick":
        res += t(1, list(STARTS), ["none", "clear", "reopen", "handles", "none/X", "none/A", "commit/X", "commit/A"], batch=60)
        res += t(2, ["none", "some"], ["none"], batch=250)
        res += t(2, ["some"], ["clear", "none/X.", "none/.X", "none/XX"], CORE, batch=250)
        res += t(2, ["full"], ["commit", "reopen", "commit/X.", "commit/A."], CORE, batch=250)
        res += t(3, ["some"], ["mixed", "none"], SMALL, batch=250)
    else:
        res += t(2, list(STARTS), ["none", "clear", "reopen", "commit", "handles"] + [b + "/" + m for b in ("none", "commit") for m in map("".join, itertools.product(".XA", repeat=2)) if m != ".."], batch=250)
        res += t(3, ["some", "full"], ["none", "mixed", "clear"], CORE, batch=250)
        res += t(3, ["some"], ["none/" + m for m in map("".join, itertools.product(".XA", repeat=3)) if m != "..."], SMALL, batch=250)
        res += t(4, ["some"], ["mixed", "none"], SMALL, batch=250)
    return res


def run_task(t, ctx):
    coll.run_task(KIND, t, ctx, Batch)
