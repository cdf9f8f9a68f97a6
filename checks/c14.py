"""C14  Prefixes are independent of each other.

Bounded space: every word up to the depth over operations on two prefixes (changing one, creating objects in the current or in a
named prefix, references across, tags, deletion, atomic blocks over both that complete or are cancelled, committing one or both,
making the other the current one, closing and re-opening one).  Each prefix has a reference model of its own; after every letter
both are compared with theirs, the committed states through snapshots, and both after re-opening.  The second prefix is also
opened read-only.
"""
import gc, itertools
import dbzero as db0
import session as S

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of operation words over two prefixes on the real library, each prefix against its own reference model"
ASSUMPTIONS = ["single process, single thread, autocommit off"]

# o: make the other prefix the current one;  n/N: new tagged object in the current / in the other prefix (set_prefix);
# a/b: change every member of that prefix's root;  u/v: untag (so delete) the oldest object of a / b;  A/B/C: commit a / b / all
# y/z: atomic block changing both and creating in both, completed / cancelled;  k: close b, then open it again
# K: close the current prefix, then open it again;  w: refer to b's newest object from a;  c: clear_cache;  q: restart
LETTERS = "onNabuvABCyzkKwc"
FEW = "onabuByzKw"


@db0.memo(id="c14.R", singleton=True)
class R:
    def __init__(self, prefix=None):
        db0.set_prefix(self, prefix)
        self.n = 0
        self.l = []
        self.d = {}
        self.s = set()
        self.ix = db0.index()
        self.w = None
        self.ws = []


@db0.memo(id="c14.O")
class O:
    def __init__(self, v, prefix=None):
        db0.set_prefix(self, prefix)
        self.v = v
        self.more = [v]


class M:
    def __init__(self):
        self.n, self.l, self.d, self.s, self.ix, self.w = 0, [], {}, set(), set(), None
        self.objs = []                       # values of the tagged objects, oldest first

    def copy(self):
        m = M()
        m.__dict__ = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in self.__dict__.items()}
        return m

    def view(self):
        return (self.n, tuple(self.l), tuple(sorted(self.d.items())), tuple(sorted(self.s)), tuple(sorted(self.ix)), tuple(sorted(self.objs)))


class World:
    def __init__(self, d, ro):
        self.d, self.ro, self.k = d, ro, 0
        self.m = {p: M() for p in "ab"}
        self.com = {p: M() for p in "ab"}
        self.r, self.uid = {}, {}
        self.start(True)

    def start(self, first=False):
        S.start(self.d)
        for p in "ab":
            db0.open(p, "r" if self.ro and p == "b" and not first else "rw")
            self.r[p] = R(prefix=p)
            self.uid[p] = db0.uuid(self.r[p])
        if first:
            db0.commit()

    def stop(self):
        self.r.clear()
        S.stop()
        for p in "ab":
            self.com[p] = self.m[p].copy()

    def writable(self, p):
        return not (self.ro and p == "b")

    def cur(self):
        return db0.get_current_prefix().name

    def change(self, p):
        if not self.writable(p):
            try:
                self.r[p].n = 99
            except Exception:
                return
            raise AssertionError("a read-only prefix accepts a change")
        r, m = self.r[p], self.m[p]
        k = self.k = self.k + 1
        r.n = m.n = k
        r.l.append(k)
        m.l.append(k)
        r.d[k % 3] = k
        m.d[k % 3] = k
        r.s.add(k % 4)
        m.s.add(k % 4)
        r.ix.add(k % 5, r)
        m.ix.add(k % 5)

    def create(self, p, explicit):
        k = self.k = self.k + 1
        try:
            o = O(k, p) if explicit else O(k)
            db0.tags(o).add("x")
        except Exception:
            if self.writable(p):
                raise
            return
        if not self.writable(p):
            raise AssertionError("a read-only prefix accepts a new object")
        assert db0.get_prefix_of(o).name == p, f"an object meant for {p} is in {db0.get_prefix_of(o).name}"
        self.m[p].objs.append(k)

    def untag(self, p):
        if not self.m[p].objs or not self.writable(p):
            return
        v = self.m[p].objs.pop(0)
        for o in list(db0.find(O, "x", prefix=p)):
            if o.v == v:
                db0.tags(o).remove("x")
        if self.m["a"].w == (p, v):
            self.m["a"].w = "gone"

    def commit(self, ps):
        db0.commit(ps) if len(ps) == 1 else db0.commit()
        for p in ps:
            self.com[p] = self.m[p].copy()

    def reopen(self, p):
        mode = "rw" if self.writable(p) else "r"
        other = "ab".replace(p, "")
        self.r.pop(p)
        gc.collect(0)
        db0.close(p)
        if self.cur() != other:
            raise AssertionError(f"closing {p} leaves {self.cur()} the current prefix")
        db0.open(p, mode)
        if self.cur() != p:
            raise AssertionError(f"opening {p} leaves {self.cur()} the current prefix")
        self.r[p] = db0.fetch(self.uid[p])
        self.com[p] = self.m[p].copy()

    def letter(self, c):
        cur = self.cur()
        other = "ab".replace(cur, "")
        if c == "o":
            db0.open(other, "rw" if self.writable(other) else "r")
            if self.cur() != other:
                raise AssertionError(f"opening {other} leaves {self.cur()} the current prefix")
        elif c == "n":
            self.create(cur, False)
        elif c == "N":
            self.create(other, True)
            if self.cur() != cur:
                raise AssertionError("creating an object in another prefix changes the current one")
        elif c in "ab":
            self.change(c)
        elif c in "uv":
            self.untag("ab"["uv".index(c)])
        elif c in "AB":
            if self.writable(c.lower()):
                self.commit(c.lower())
        elif c == "C":
            self.commit("ab")
        elif c in "yz":
            before = {p: self.m[p].copy() for p in "ab"}
            with db0.atomic() as at:
                self.change("a")
                self.change("b")
                self.create(cur, False)
                self.create(other, True)
                if c == "z":
                    at.cancel()
            if c == "z":
                self.m = before
        elif c == "k":
            self.reopen("b")
        elif c == "K":
            self.reopen(cur)
        elif c == "w":
            objs = self.m["b"].objs
            if objs:
                v = objs[-1]
                o = [o for o in db0.find(O, "x", prefix="b") if o.v == v][0]
                n = db0.getrefcount(o)
                self.r["a"].w = o
                self.r["a"].ws.append(o)
                if db0.getrefcount(o) != n:
                    raise AssertionError("a reference from another prefix counts as a reference")
                self.m["a"].w = ("b", v)
        elif c == "c":
            db0.clear_cache()
        elif c == "q":
            self.stop()
            self.start()

    def see(self, p, where=None):
        """The contents of a prefix, live or in a snapshot."""
        src = where or db0
        r = src.fetch(self.uid[p])
        objs = sorted(src.find(O, "x", prefix=p), key=lambda o: o.v)
        for o in objs:
            if list(o.more) != [o.v] or where is None and db0.get_prefix_of(o).name != p:
                return f"object {o.v} of {p} is damaged"
        return (r.n, tuple(r.l), tuple(sorted(r.d.items())), tuple(sorted(r.s)),
                tuple(sorted(k for k in range(5) if len(list(r.ix.select(k, k))) > 0)), tuple(o.v for o in objs))

    def weak(self):
        w, want = self.r["a"].w, self.m["a"].w
        if want is None or want == "gone":
            return None if want is None and w is None else "dunno"
        return None if w is not None and w.v == want[1] and self.r["a"].ws[-1].v == want[1] else f"the reference to {want} gives {w}"

    def check(self, stage, deep=False):
        for p in "ab":
            got = self.see(p)
            if got != self.m[p].view():
                return f"{stage}: prefix {p} holds {got}, expected {self.m[p].view()}"
            x = db0.get_prefix_of(self.r[p]).name
            if x != p:
                return f"{stage}: the root of {p} is said to be in {x}"
        x = self.weak()
        if x not in (None, "dunno"):
            return f"{stage}: {x}"
        if deep:
            s = db0.snapshot()
            try:
                for p in "ab":
                    got = self.see(p, s)
                    if got != self.com[p].view():
                        return f"{stage}: a snapshot shows {p} as {got}, committed {self.com[p].view()}"
            finally:
                s.close()


def words(n, letters):
    for w in itertools.product(letters, repeat=n):
        w = "".join(w)
        if not any(p in w for p in ("oo", "AA", "BB", "CC", "cc", "kk", "KK")):
            yield w


def plan(tier):
    tasks = []
    n = 4 if tier == "thorough" else 3
    for h in itertools.product(LETTERS, repeat=1 if tier == "quick" else 2):
        tasks.append({"letters": LETTERS + ("q" if tier == "thorough" else ""), "n": n, "head": "".join(h), "ro": False})
    for h in FEW:
        tasks.append({"letters": FEW, "n": n + 1, "head": h, "ro": False})
        tasks.append({"letters": LETTERS, "n": n, "head": h, "ro": True})
    return tasks


def run_words(ws, ro, ctx):
    d = ctx.scratch()
    w = None
    done = []
    try:
        w = World(d, False)
        if ro:
            w.letter("b"), w.letter("n"), w.letter("C")
            w.stop()
            w.ro = True
            w.start()
        for x in ws:
            done.append(x)
            case = {"words": list(done), "ro": ro}
            ctx.begin(case)
            try:
                for i, c in enumerate(x):
                    w.letter(c)
                    ctx.count("ops")
                    bad = w.check(f"{x!r} at letter {i}", deep=i == len(x) - 1)
                    if bad:
                        ctx.fail(case, "a prefix holds something else than was put into it", bad)
                        return
            except AssertionError as e:
                ctx.fail(case, str(e).split(" (")[0] if "object meant" not in str(e) else "an object is created in the wrong prefix", f"{x!r} at letter {i}: {e}")
                return
            except Exception as e:
                ctx.fail(case, "an operation on prefixes fails", f"{x!r} at letter {i} ({c}): {type(e).__name__}: {e}")
                return
            ctx.count("histories")
            ctx.state((x, ro))
            if len(done) % 40 == 0 or x == ws[-1]:
                w.letter("q")
                bad = w.check(f"after re-opening, words {done[-3:]}", deep=True)
                if bad:
                    ctx.fail(case, "a prefix holds something else than was put into it", bad)
                    return
            for p in "ab":                                # keep the prefixes small
                if len(w.m[p].l) > 30 and w.writable(p):
                    w.r[p].l.clear()
                    w.m[p].l.clear()
                    while w.m[p].objs:
                        w.untag(p)
            if len(w.r["a"].ws) > 30:
                w.r["a"].ws.clear()
                w.m["a"].w = "gone"
    finally:
        if w:
            w.r.clear()
        w = None
        S.stop()
        ctx.drop(d)


def run_task(t, ctx):
    if "words" in t:
        return run_words(t["words"], t["ro"], ctx)
    ws = [x for x in words(t["n"], t["letters"]) if x.startswith(t["head"])]
    for i in range(0, len(ws), 120):
        run_words(ws[i:i + 120], t["ro"], ctx)
    ctx.sample({"words": ws[-1:], "ro": t["ro"]})


def coverage(cov):
    st = cov.pop("distinct_states")
    cov.update(states=st, transitions=cov.get("ops", 0), traces_validated_against_impl=cov.get("histories", 0))
    return cov
