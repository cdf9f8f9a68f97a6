"""C10  Index range queries and sorting return exactly the right objects in order.

Bounded space: every sequence of operations (add, remove and move of a key, clear, calls with a wrong key) up to the depth over
keys {null, several numbers / dates / times} and shared objects, from empty, null-only, mixed and large start values, with every
barrier pattern between the operations, and with operations executed in atomic blocks that complete or are cancelled.  After the
sequence every range (all pairs of bounds, both null policies), every sort (ascending / descending, both null policies, whole
and restricted queries), every two-level sort and the combinations with other queries are compared with a list of pairs.
"""
import datetime
import itertools
import dbzero as db0
import coll
import session as S
from coll import Kind, Ref, SHARED, CElem

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of index operation sequences on the real index, all ranges and sort orders compared with a list of (key, object) pairs"
ASSUMPTIONS = ["single process, single thread; objects that occur under no key of an inner index are not required to be dropped or kept by the outer sort",
               "the order among objects of equal keys is unspecified in a one-level sort"]
D = datetime.datetime
KEYSETS = {"int": [0, 1, -5], "datetime": [D(2020, 1, 1), D(2020, 1, 1, 0, 0, 1), D(1969, 12, 31)], "date": [datetime.date(2020, 2, 29), datetime.date(2020, 3, 1), datetime.date(1900, 1, 1)],
           "time": [datetime.time(0, 0), datetime.time(0, 0, 1), datetime.time(23, 59, 59)], "wide": [2 ** 63 - 1, -2 ** 63, 0]}
BOUNDS = {"int": [None, -6, -5, 0, 1, 2], "datetime": [None, D(1960, 1, 1), D(1969, 12, 31), D(2020, 1, 1), D(2020, 1, 1, 0, 0, 1), D(2030, 1, 1)],
          "date": [None, datetime.date(1899, 1, 1), datetime.date(1900, 1, 1), datetime.date(2020, 2, 29), datetime.date(2020, 3, 1), datetime.date(2021, 1, 1)],
          "time": [None, datetime.time(0, 0), datetime.time(0, 0, 1), datetime.time(12), datetime.time(23, 59, 59)],
          "wide": [None, -2 ** 63, -1, 0, 2 ** 63 - 1]}
SECOND = [1, 0, 1]              # keys of the objects in the second index
TAGGED = (0, 2)


class RIndex:
    """The reference: a set of (key, object number) pairs."""
    def __init__(self, pairs=()):
        self.pairs = set(pairs)
        self.t = None
        for k, i in pairs:
            self.fix(k)

    def fix(self, k):
        if k is None:
            return
        t = type(k)
        if t not in (int, D, datetime.date, datetime.time):
            raise RuntimeError()
        if t is int and not -2 ** 63 <= k < 2 ** 63:
            raise OverflowError()
        if self.t is None:
            self.t = t
        elif self.t is not t:
            raise RuntimeError()

    def add(self, k, o):
        self.fix(k)
        self.pairs.add((k, o.i))

    def remove(self, k, o):
        self.fix(k)                       # a removal decides about the kind of key just like an addition
        self.pairs.discard((k, o.i))

    def clear(self):
        self.pairs.clear()
        self.t = None

    def __len__(self):
        return len(self.pairs)

    def members(self):
        return [Ref(i) for k, i in sorted(self.pairs, key=repr)]

    def copy(self):
        r = RIndex(self.pairs)
        r.t = self.t
        return r

    # expected answers
    def select(self, lo, hi, nf):
        return sorted(i for k, i in self.pairs if self.within(k, lo, hi, nf))

    @staticmethod
    def within(k, lo, hi, nf):
        if k is None:
            return (lo if nf else hi) is None
        return (lo is None or k >= lo) and (hi is None or k <= hi)

    def groups(self, objs, desc, nf):
        """the objects in groups of equal keys, in order"""
        ks = sorted({k for k, i in self.pairs if k is not None})
        ks = [None] + ks if nf else ks + [None]
        if desc:
            ks.reverse()
        g = [sorted(i for k, i in self.pairs if k == q and (k is None) == (q is None) and i in objs) for q in ks]
        return [x for x in g if x]


def op(name, *a):
    def f(x, E):
        return getattr(x, name)(*[E[v.i] if isinstance(v, Ref) else v for v in a])
    return f


def both(f, g):
    def h(x, E):
        f(x, E)
        return g(x, E)
    return h


def move(k, k2, o):
    def f(x, E):
        x.remove(k, E[o])
        x.add(k2, E[o])
    return f


def kind(name, keys, bounds):
    ops = {"clear": op("clear"), "len": op("__len__"), "add 'x' E0": op("add", "x", Ref(0)), "add 1.5 E0": op("add", 1.5, Ref(0)),
           "remove 'x' E0": op("remove", "x", Ref(0))}
    if isinstance(keys[0], int):
        ops.update({"add 2**70 E0": op("add", 2 ** 70, Ref(0)), "remove 2**70 E0": op("remove", 2 ** 70, Ref(0)), "add 0, add datetime E0": both(op("add", 0, Ref(0)), op("add", D(2020, 1, 1), Ref(0))),
                    "clear, add datetime, clear": both(op("clear"), both(op("add", D(2020, 1, 1), Ref(1)), op("clear")))})
    for i in range(SHARED):
        for k in [None] + keys:
            ops[f"add {k} E{i}"] = op("add", k, Ref(i))
            ops[f"remove {k} E{i}"] = op("remove", k, Ref(i))
        ops[f"move {keys[0]}→{keys[1]} E{i}"] = move(keys[0], keys[1], i)
        ops[f"move None→{keys[1]} E{i}"] = move(None, keys[1], i)
        ops[f"move {keys[1]}→None E{i}"] = move(keys[1], None, i)
    a, b, c = keys
    starts = {"empty": [], "nulls": [(None, 0), (None, 1)], "one": [(a, 0)], "mixed": [(None, 2), (a, 0), (b, 1), (a, 2)], "equal": [(a, 0), (a, 1), (a, 2)],
              "full": [(k, i) for k in [None] + keys for i in range(SHARED)]}
    if name == "int":
        starts["300"] = [(k, i) for k in range(-50, 50) for i in range(SHARED)] + [(None, 1)]
    k = Kind(name, make, {n: (lambda p: lambda E: RIndex(p))(p) for n, p in starts.items()}, ops, {}, content)
    k.bounds = bounds
    return k


ELEMS = None


def make(r):
    x = db0.index()
    for k, i in sorted(r.pairs, key=repr):
        x.add(k, ELEMS[i])
    return x


def content(x):
    if isinstance(x, RIndex):
        return (len(x), tuple(x.select(None, None, True)))
    return (len(x), tuple(sorted(o.i for o in x.select(None, None, null_first=True))))


def fits(flat, groups):
    """flat is the concatenation of permutations of the groups"""
    p = 0
    for g in groups:
        if sorted(flat[p:p + len(g)]) != g:
            return False
        p += len(g)
    return p == len(flat)


class Batch(coll.Batch):
    destroys = False

    full = ("live", "after re-opening read-only")

    def prepare(self, root):
        global ELEMS
        ELEMS = self.E
        self.second = db0.index()
        for i, k in enumerate(SECOND):
            self.second.add(k, self.E[i])
            if i in TAGGED:
                db0.tags(self.E[i]).add("t")
        root.elems.append(CHolder2(self.second))

    def handles(self):
        super().handles()
        self.second = self.E[SHARED].c
        self.E = self.E[:SHARED]

    def compare(self, where):
        super().compare(where)
        if where in self.full:
            for i in range(len(self.R)):
                if i not in self.bad:
                    self.read(i, where)

    def wrong(self, i, what, where, got, want):
        if where not in self.full:
            where = "live"
        self.fail(i, f"{what} gives the wrong objects", f"{where}: {what} with pairs {sorted(self.R[i].pairs, key=repr)[:40]}: dbzero {str(got)[:400]}, expected {str(want)[:400]}")

    def refcounts(self, where):
        self.R.append(Second())                   # the second index holds every object once, a tag holds the tagged ones
        try:
            super().refcounts(where)
        finally:
            self.R.pop()

    def read(self, i, where="live"):
        try:
            self.reads(i, where)
        except RecursionError:
            raise
        except Exception as e:
            self.fail(i, "a query raises", f"{where}: pairs {sorted(self.R[i].pairs, key=repr)[:40]}: {type(e).__name__}: {e}")

    def reads(self, i, where):
        x, r, sec, E = self.H[i], self.R[i], self.second, self.E
        ids = lambda q: [o.i for o in q]
        n = 0
        live = where == "live"
        B = self.k.bounds if r.t is not None else [None] + self.k.bounds[1:3]
        for lo, hi in itertools.product(B, B):
            for nf in (False, True) if live or None in (lo, hi) else (False,):
                got, want = sorted(ids(x.select(lo, hi, null_first=nf))), r.select(lo, hi, nf)
                n += 1
                if got != want:
                    return self.wrong(i, f"select({lo}, {hi}, null_first={nf})", where, got, want)
        B = [None] + B[2:4]
        for lo, hi in [(B[1], None)] if not live else itertools.product(B, B):
            want = sorted(set(r.select(lo, hi, False)))
            for name, q, w in (("find(type, select)", db0.find(CElem, x.select(lo, hi)), want),
                               ("find(tag, select)", db0.find("t", x.select(lo, hi)), [o for o in want if o in TAGGED]),
                               ("find(select, select of another index)", db0.find(x.select(lo, hi), sec.select(1, None)), [o for o in want if SECOND[o] >= 1]),
                               ("find(type, no select)", db0.find(CElem, db0.no(x.select(lo, hi))), [o for o in range(SHARED) if o not in want]),
                               ("find(type, one of [select, tag])", db0.find(CElem, [x.select(lo, hi), "t"]), sorted(set(want) | set(TAGGED)))):
                n += 1
                got = sorted(set(ids(q)))
                if got != w:
                    return self.wrong(i, f"{name}, bounds ({lo}, {hi})", where, got, w)
        single = len({o for k, o in r.pairs}) == len(r.pairs)
        for desc, nf in itertools.product((False, True), repeat=2):
            for qn, q, objs in (("all", db0.find(CElem), range(SHARED)), ("tagged", db0.find(CElem, "t"), TAGGED), ("none", db0.find(CElem, "nothing"), ())):
                n += 1
                got, want = ids(x.sort(q, desc=desc, null_first=nf)), r.groups(objs, desc, nf)
                if not fits(got, want):
                    return self.wrong(i, f"sort({qn}, desc={desc}, null_first={nf})", where, got, want)
            if single:
                got, want = ids(x.sort(x.select(B[1], None), desc=desc, null_first=nf)), r.groups(r.select(B[1], None, False), desc, nf)
                n += 1
                if not fits(got, want):
                    return self.wrong(i, f"sort(select({B[1]}, None), desc={desc}, null_first={nf})", where, got, want)
            for d2 in (False, True) if live else (desc,):
                got = ids(x.sort(sec.sort(db0.find(CElem), desc=d2), desc=desc, null_first=nf))
                want = [sub for g in r.groups(range(SHARED), desc, nf) for sub in split(g, d2)]
                n += 1
                if not fits(got, want):
                    return self.wrong(i, f"sort(second.sort(all, desc={d2}), desc={desc}, null_first={nf})", where, got, want)
                if single and len(r.pairs) == SHARED:
                    got = ids(sec.sort(x.sort(db0.find(CElem), desc=desc, null_first=nf), desc=d2))
                    order = [o for g in r.groups(range(SHARED), desc, nf) for o in g]
                    rank = {o: gi for gi, g in enumerate(r.groups(range(SHARED), desc, nf)) for o in g}
                    want = [list(g) for _, g in itertools.groupby(sorted(order, key=lambda o: ((-SECOND[o] if d2 else SECOND[o]), rank[o])), key=lambda o: (SECOND[o], rank[o]))]
                    n += 1
                    if not fits(got, [sorted(g) for g in want]):
                        return self.wrong(i, f"second.sort(sort(all, desc={desc}, null_first={nf}), desc={d2})", where, got, want)
        self.ctx.count("queries", n)


def split(g, desc):
    """a group of equal first keys in groups of equal second keys"""
    ks = sorted({SECOND[i] for i in g}, reverse=desc)
    return [[i for i in g if SECOND[i] == k] for k in ks]


class Second:
    def members(self):
        return [Ref(i) for i in list(range(SHARED)) + list(TAGGED)]


@db0.memo
class CHolder2:
    def __init__(self, c):
        self.c = c


KINDS = {n: kind(n, KEYSETS[n], BOUNDS[n]) for n in KEYSETS}
INT = KINDS["int"]
BASE = list(INT.ops)
CORE = [o for o in BASE if o.endswith(("E0", "E1")) and "-5" not in o and "'x'" not in o and "1.5" not in o] + ["clear", "add 1 E2", "add None E2"]
SMALL = [o for o in CORE if "move" not in o and "1 E" not in o] + ["add 1 E0", "remove 1 E0", "move 0→1 E0"]


def plan(tier):
    res = []
    t = lambda k, *a, **kw: coll.tasks(KINDS[k], *a, **kw)
    starts = ["empty", "nulls", "one", "mixed", "equal", "full"]
    if tier == "quick":
        res += t("int", 2, starts, ["none"], batch=300)
        res += t("int", 2, ["mixed", "equal"], ["clear"], batch=300)
        res += t("int", 2, ["empty", "nulls"], ["reopen"], batch=300)
        res += t("int", 2, ["empty", "mixed"], ["commit", "none/X.", "none/.X", "none/A.", "none/XA", "commit/X.", "commit/.X"], CORE)
        res += t("int", 2, ["mixed"], ["handles"], CORE)
        res += t("int", 3, ["empty", "mixed"], ["mixed", "none"], SMALL)
        res += t("int", 1, ["300"], ["none", "clear", "reopen"], batch=30)
        for k in ("datetime", "date", "time", "wide"):
            res += t(k, 1, starts, ["none", "clear"])
            res += t(k, 2, ["empty"], ["mixed"], batch=300)
    else:
        res += t("int", 3, ["empty", "nulls", "mixed", "equal"], ["none", "clear", "reopen", "mixed"], BASE)
        res += t("int", 3, ["empty", "mixed"], [b + "/" + m for b in ("none", "commit") for m in map("".join, itertools.product(".XA", repeat=3)) if m != "..."], CORE)
        res += t("int", 4, ["empty", "mixed"], ["mixed", "none"], SMALL)
        res += t("int", 2, ["300"], ["none", "clear", "reopen", "mixed"], batch=30)
        for k in ("datetime", "date", "time", "wide"):
            res += t(k, 2, starts, ["none", "clear", "reopen", "mixed"])
    return res


def run_task(t, ctx):
    coll.run_task(KINDS[t["kind"]], t, ctx, Batch)
