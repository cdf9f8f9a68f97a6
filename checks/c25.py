"""C25  A prefix opened read-only is never changed.

Bounded space: every word up to the depth over everything a program can attempt (each mutating operation of each kind of object,
creating objects, atomic blocks and locked sections, commits, refreshing, closing) and over the reading operations, on a prefix
opened read-only, alone, next to a writable one, and on the objects of a snapshot.  After every letter the whole contents are read
and compared, after every word the file is compared byte for byte, and at the end a writable session reads the same.
"""
import glob, hashlib, itertools, os
import dbzero as db0
import session as S

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of attempted operations on the real library with the prefix opened read-only, contents and file bytes as the oracle"
ASSUMPTIONS = ["single process, autocommit off"]


@db0.enum(values=["A", "B"])
class C25E:
    pass


@db0.memo(id="c25.R", singleton=True)
class R:
    def __init__(self):
        self.n = 1
        self.s = "x"
        self.f = 1.5
        self.l = [1, 2, 3]
        self.d = {"a": 1, 2: "b"}
        self.t = {1, 2}
        self.tu = (1, "q")
        self.bx = db0.bytearray(b"ab")
        self.ix = db0.index()
        self.ws = db0.weak_set([])
        self.e = C25E.A
        self.b = True
        self.o = None
        self.el = []
        self.ed = {}
        self.et = set()


@db0.memo(id="c25.O")
class O:
    def __init__(self, v, prefix=None):
        if prefix:
            db0.set_prefix(self, prefix)
        self.v = v
        self.more = [v]


@db0.memo(id="c25.N")                    # no instance exists
class N:
    def __init__(self, v, prefix=None):
        if prefix:
            db0.set_prefix(self, prefix)
        self.v = v


@db0.memo(id="c25.S2", singleton=True)   # no instance exists
class S2:
    def __init__(self, prefix=None):
        db0.set_prefix(self, prefix)     # unconditional and first: a singleton's prefix is found by running this much of the constructor
        self.v = 1


def dl(x, k):
    del x[k]


def inplace(r, name, v):
    x = getattr(r, name)
    x += v


def within(cm, f):
    with cm():
        f()


def cancelled(f):
    with db0.atomic() as at:
        try:
            f()
        finally:
            at.cancel()


# operations which change something: must raise
MUT = {
    "set int": lambda w: setattr(w.r, "n", 5),
    "set str": lambda w: setattr(w.r, "s", "yy"),
    "set str to int": lambda w: setattr(w.r, "s", 1),
    "set float": lambda w: setattr(w.r, "f", 2.5),
    "set bool": lambda w: setattr(w.r, "b", False),
    "set none": lambda w: setattr(w.r, "n", None),
    "set enum": lambda w: setattr(w.r, "e", C25E.B),
    "set object": lambda w: setattr(w.r, "o", w.p),
    "set list": lambda w: setattr(w.r, "l", [7]),
    "set dict": lambda w: setattr(w.r, "d", {}),
    "clear object": lambda w: setattr(w.r, "o", None),
    "new member": lambda w: setattr(w.r, "zz", 1),
    "del member": lambda w: delattr(w.r, "n"),
    "set on object": lambda w: setattr(w.o, "v", 99),
    "l append": lambda w: w.r.l.append(4),
    "l append object": lambda w: w.r.l.append(w.o),
    "l append list": lambda w: w.r.l.append([1]),
    "l append new": lambda w: w.r.l.append(O(3, w.px)),
    "l set": lambda w: w.r.l.__setitem__(0, 9),
    "l set object": lambda w: w.r.l.__setitem__(3, 1),
    "l pop": lambda w: w.r.l.pop(),
    "l pop 0": lambda w: w.r.l.pop(0),
    "l remove": lambda w: w.r.l.remove(1),
    "l extend": lambda w: w.r.l.extend([1, 2]),
    "l +=": lambda w: inplace(w.r, "l", [1]),
    "l clear": lambda w: w.r.l.clear(),
    "l del": lambda w: dl(w.r.l, 0),
    "el append": lambda w: w.r.el.append(1),
    "d set": lambda w: w.r.d.__setitem__("b", 2),
    "d replace": lambda w: w.r.d.__setitem__("a", 3),
    "d set object": lambda w: w.r.d.__setitem__(7, w.o),
    "d set nested": lambda w: w.r.d.__setitem__("l", [1]),
    "d del": lambda w: dl(w.r.d, "a"),
    "d pop": lambda w: w.r.d.pop("a"),
    "d update": lambda w: w.r.d.update({"q": 1}),
    "d setdefault": lambda w: w.r.d.setdefault("w", 1),
    "d clear": lambda w: w.r.d.clear(),
    "ed set": lambda w: w.r.ed.__setitem__(1, 1),
    "t add": lambda w: w.r.t.add(7),
    "t remove": lambda w: w.r.t.remove(1),
    "t discard": lambda w: w.r.t.discard(1),
    "t pop": lambda w: w.r.t.pop(),
    "t update": lambda w: w.r.t.update([9]),
    "t |=": lambda w: inplace(w.r, "t", {9}) if False else w.r.t.__ior__({9}),
    "t difference_update": lambda w: w.r.t.difference_update([1]),
    "t clear": lambda w: w.r.t.clear(),
    "et add": lambda w: w.r.et.add("k"),
    "bx set": lambda w: w.r.bx.__setitem__(0, 9),
    "bx append": lambda w: w.r.bx.append(3),
    "bx extend": lambda w: w.r.bx.extend(b"q"),
    "ix add": lambda w: w.r.ix.add(3, w.o),
    "ix add null": lambda w: w.r.ix.add(None, w.p),
    "ix remove": lambda w: w.r.ix.remove(1, w.o),
    "ix clear": lambda w: w.r.ix.clear(),
    "ws add": lambda w: w.r.ws.add(w.p),
    "ws discard": lambda w: w.r.ws.discard(w.o),
    "tag": lambda w: db0.tags(w.o).add("z"),
    "tag known": lambda w: db0.tags(w.o).add("y"),
    "tag several": lambda w: db0.tags(w.o, w.p).add(["q", "x"]),
    "tag object": lambda w: db0.tags(w.o).add(w.p),
    "tag enum": lambda w: db0.tags(w.o).add(C25E.A),
    "untag": lambda w: db0.tags(w.p).remove("x"),
    "untag =": lambda w: db0.tags(w.p).__iadd__("k"),
    "new object": lambda w: O(9, w.px),
    "new object of new class": lambda w: N(9, w.px),
    "new singleton": lambda w: S2(w.px),
    "delete object": lambda w: db0.delete(w.p),
    "touch": lambda w: db0.touch(w.o),
    "rename": lambda w: db0.rename_field(O, "v", "w"),
    "commit a": lambda w: db0.commit("a"),
    "atomic set": lambda w: within(db0.atomic, lambda: setattr(w.r, "n", 5)),
    "atomic append": lambda w: within(db0.atomic, lambda: w.r.l.append(3)),
    "atomic new": lambda w: within(db0.atomic, lambda: O(8, w.px)),
    "atomic tag": lambda w: within(db0.atomic, lambda: db0.tags(w.o).add("z")),
    "atomic cancelled set": lambda w: cancelled(lambda: setattr(w.r, "n", 5)),
    "atomic cancelled dict": lambda w: cancelled(lambda: w.r.d.clear()),
    "locked set": lambda w: within(db0.locked, lambda: setattr(w.r, "n", 6)),
}
# only where the read-only prefix is the current one
MUT_CUR = {
    "new list": lambda w: db0.list([1]),
    "new dict": lambda w: db0.dict({1: 1}),
    "new set": lambda w: db0.set([1]),
    "new tuple": lambda w: db0.tuple((1, 2)),
    "new index": lambda w: db0.index(),
    "new bytearray": lambda w: db0.bytearray(b"a"),
    "new weak_set": lambda w: db0.weak_set([]),
}
# operations which change nothing: no exception expected
READ = {
    "commit": lambda w: db0.commit(),
    "atomic": lambda w: within(db0.atomic, lambda: None),
    "locked": lambda w: within(db0.locked, lambda: None),
    "refresh": lambda w: db0.refresh(),
    "clear_cache": lambda w: db0.clear_cache(),
    "find new tag": lambda w: list(db0.find("nosuch")),
    "find new class": lambda w: list(db0.find(N)),
    "find": lambda w: list(db0.find(O, "x")),
    "serialize": lambda w: db0.serialize(db0.find("x")),
    "snapshot": lambda w: db0.snapshot().close(),
    "state": lambda w: db0.get_state_num("a"),
    "weak proxy": lambda w: db0.weak_proxy(w.o),
    "as tag": lambda w: db0.as_tag(w.o),
    "open": lambda w: db0.open("a", "r"),
    "setdefault present": lambda w: w.r.d.setdefault("a", 1),
    "pop absent": lambda w: w.r.d.pop("nope", 1),
    "again": lambda w: w.again(),
    "reopen": lambda w: w.reopen(),
}


class World:
    def __init__(self, d, mode):
        self.d, self.mode = d, mode
        self.px = None if mode == "ro" else "a"
        S.start(d)
        db0.open("a", "rw")
        r = R()
        o, p = O(5), O(6)
        r.o = o
        r.l.append(o)
        db0.tags(o).add("x")
        db0.tags(p).add(["x", "y"])
        r.ix.add(1, o)
        r.ix.add(2, p)
        r.ws.add(o)
        db0.commit()
        r.n = 2
        r.d["z"] = o
        db0.commit()
        for i in range(3):                      # some free space
            r.el.append(O(i))
            db0.commit()
        r.el.clear()
        self.uid = [db0.uuid(x) for x in (r, o, p)]
        r = o = p = None
        S.stop()
        self.files = self.bytes()
        self.start()
        self.want = self.view()

    def bytes(self):
        return hashlib.md5(open(os.path.join(self.d, "a.db0"), "rb").read()).hexdigest()

    def start(self):
        S.start(self.d)
        if self.mode == "snap":
            db0.open("a", "rw")
            self.s = db0.snapshot()
        else:
            db0.open("a", "r")
            if self.mode == "ro+b":
                db0.open("b", "rw")
        self.again()

    def again(self):
        f = self.s.fetch if self.mode == "snap" else db0.fetch
        self.r = self.o = self.p = None
        self.r, self.o, self.p = (f(u) for u in self.uid)

    def reopen(self):
        if self.mode == "snap":
            return
        self.r = self.o = self.p = None
        db0.close("a")
        db0.open("a", "r")
        self.again()
        if self.mode == "ro+b":
            db0.open("b", "rw")

    def stop(self):
        self.r = self.o = self.p = None
        if self.mode == "snap":
            self.s.close()
            self.s = None
        S.stop()

    def view(self):
        r = self.r
        find = self.s.find if self.mode == "snap" else db0.find
        return (r.n, r.s, r.f, [x if isinstance(x, int) else x.v for x in r.l], sorted((str(k), getattr(v, "v", v)) for k, v in r.d.items()), sorted(r.t),
                tuple(r.tu), bytes(list(r.bx)), sorted(x.v for x in r.ix.select(None, None)), sorted(x.v for x in r.ws), str(r.e), r.b, r.o.v,
                list(r.o.more), list(r.el), len(r.ed), len(r.et), sorted(x.v for x in find(O, prefix="a")), sorted(x.v for x in find("x", prefix="a")),
                sorted(x.v for x in find("y", prefix="a")), len(list(find("z", prefix="a"))), hasattr(r, "zz"), db0.getrefcount(self.o), db0.getrefcount(self.p))


SNAP_SKIP = {"new object", "new object of new class", "new singleton", "atomic new", "l append new", "rename", "commit a", "reopen", "open", "commit", "state",
             "refresh", "find new class", "delete object"}


def letters(mode):
    m = dict(MUT)
    if mode == "ro":
        m.update(MUT_CUR)
    names = list(m) + list(READ)
    if mode == "snap":
        names = [n for n in names if n not in SNAP_SKIP]
    if mode == "ro+b":
        names.remove("open")
    return names


def plan(tier):
    tasks = []
    for mode in ("ro", "ro+b", "snap"):
        names = letters(mode)
        for i in range(0, len(names), 6):
            tasks.append({"mode": mode, "heads": names[i:i + 6], "n": 3 if tier == "thorough" and mode != "snap" else 2})
    return tasks


def run_words(words, mode, ctx):
    d = ctx.scratch()
    w = None
    try:
        w = World(d, mode)
        done = []
        for word in words:
            done = done[-60:] + [word]
            case = {"words": list(done), "mode": mode}
            ctx.begin(case)
            for n in word:
                f = MUT.get(n) or MUT_CUR.get(n) or READ[n]
                exc = None
                try:
                    f(w)
                except Exception as e:
                    exc = e
                ctx.count("ops")
                if exc is None and n not in READ:
                    ctx.fail(case, f"'{n}' is accepted by a read-only prefix", f"{word}")
                    return
                if exc is not None and n in READ:
                    ctx.fail(case, f"'{n}' fails with a read-only prefix", f"{word}: {type(exc).__name__}: {exc}")
                    return
                exc = None
            try:
                got = w.view()
            except Exception as e:
                ctx.fail(case, "a read-only prefix is no longer readable after a rejected change", f"{word}: {type(e).__name__}: {e}")
                return
            if got != w.want:
                ctx.fail(case, "a read-only prefix shows a change", f"{word}: {got} expected {w.want}")
                return
            if w.bytes() != w.files:
                ctx.fail(case, "the file of a read-only prefix is changed", f"{word}")
                return
            ctx.count("histories")
            ctx.state((word, mode))
        w.stop()
        if w.bytes() != w.files and mode != "snap":
            ctx.fail(case, "the file of a read-only prefix is changed", f"after closing, {done[-3:]}")
            return
        w.mode, w.px = "ro", None
        S.start(d)
        db0.open("a", "rw")
        w.again()
        got = w.view()
        if got != w.want:
            ctx.fail(case, "a later session reads something else", f"after {done[-3:]}: {got} expected {w.want}")
    finally:
        if w:
            w.r = w.o = w.p = w.s = None
        w = None
        S.stop()
        ctx.drop(d)


def run_task(t, ctx):
    if "words" in t:
        return run_words([tuple(x) for x in t["words"]], t["mode"], ctx)
    names = letters(t["mode"])
    ws = [(h,) + x for h in t["heads"] for x in itertools.product(names, repeat=t["n"] - 1)]
    for i in range(0, len(ws), 150):
        run_words(ws[i:i + 150], t["mode"], ctx)
    ctx.sample({"words": [list(ws[-1])], "mode": t["mode"]})


def coverage(cov):
    st = cov.pop("distinct_states")
    cov.update(states=st, transitions=cov.get("ops", 0), traces_validated_against_impl=cov.get("histories", 0))
    return cov
