"""Bulk-synchronous enumerator of operation sequences on one kind of collection.

A sequence is a start value and a list of operations; it is executed on a dbzero collection and on the Python object it mimics.
Many sequences share one session and advance in lockstep, so that a barrier (commit + cache clearing, re-open) costs once per
step and not once per sequence.  After every operation the results are compared, and the complete contents as the pattern
says; at the end the contents are compared through the live object, after a commit, after clearing the caches and after
re-opening, the readers of the kind are evaluated on both, and the reference counts of the shared objects are compared with the
number of places that hold them.
"""
import copy
import gc
import dbzero as db0
import session as S

PX = "p"
SHARED = 3                       # number of shared memo objects usable as elements


@db0.memo(singleton=True)
class CRoot:
    def __init__(self):
        self.holders = []
        self.elems = []


@db0.memo
class CHolder:
    def __init__(self, c):
        self.c = c


@db0.memo
class CElem:
    def __init__(self, i):
        self.i = i


class Ref:
    """Stands for the shared memo object i on the Python side."""
    def __init__(self, i):
        self.i = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.i == self.i

    def __hash__(self):
        return 77 + self.i

    def __repr__(self):
        return f"E{self.i}"


def key(v):
    """Keys and set elements: equality decides, so 1 and 1.0 are the same."""
    n = norm(v)
    return n[1] if n[0] == "v" else n


def norm(v):
    t = type(v).__name__
    if t == "CElem" or t == "MemoObject" and hasattr(v, "i"):
        return ("e", v.i)
    if t == "Ref":
        return ("e", v.i)
    if t in ("list", "List"):
        return ("l",) + tuple(norm(e) for e in v)
    if t in ("tuple", "Tuple"):
        return ("t",) + tuple(norm(e) for e in v)
    if t in ("dict", "Dict"):
        return ("d", frozenset((key(k), norm(v[k])) for k in list(v)), len(v))
    if t in ("set", "frozenset", "Set", "WeakSet"):
        items = list(v)
        return ("s", frozenset(key(e) for e in items), len(items), len(v))
    if t in ("bytearray", "bytes", "ByteArray"):
        return ("b", bytes(v[i] for i in range(len(v))))
    if t == "CHolder":
        return ("h",)
    if v is None or isinstance(v, (int, float, str, bool)):
        return ("v", v, t)
    if t in ("EnumValue", "EnumValueRepr"):
        return ("o", "enum", str(v))
    return ("o", t, repr(v)) if t in ("date", "datetime", "time", "Decimal") else ("v", v, t)


def hashable(v):
    """A dbzero tuple (which is not hashable) as a Python one."""
    return tuple(hashable(e) for e in v) if type(v).__name__ in ("Tuple", "tuple") else v


class Kind:
    """name; make(pyvalue) → dbzero object; ops / readers: name → f(x, E); starts: name → f(E) giving a Python value"""
    def __init__(self, name, make, starts, ops, readers, content=norm, sync=None):
        self.name, self.make, self.starts, self.ops, self.readers, self.content = name, make, starts, ops, readers, content
        self.sync = sync or {}          # op → f(x_ref, result): mimics a choice of the real collection


def attempt(f, *a):
    try:
        return ("ok", norm(f(*a)))
    except RecursionError:
        raise
    except Exception as e:
        return ("raised", type(e).__name__)


def same(a, b):
    return a[0] == b[0] and (a[0] == "raised" or a[1] == b[1])


def refs_in(v, seen=None):
    """How often each shared object occurs in a Python value (a nested container held twice counts once)."""
    if isinstance(v, Ref):
        return [v.i]
    if hasattr(v, "members"):
        v = v.members()
    if isinstance(v, (dict, list, tuple, set, frozenset)):
        seen = {} if seen is None else seen
        if id(v) in seen:
            return []
        seen[id(v)] = v
        if isinstance(v, dict):
            return [r for k, w in v.items() for r in refs_in(k, seen) + refs_in(w, seen)]
        return [r for e in v for r in refs_in(e, seen)]
    return []


class Batch:
    """Runs sequences [(start name, [op, ...])] of equal length with one barrier pattern."""

    destroys = True                  # finally drop the collections and see that they release their elements

    def __init__(self, kind, seqs, pattern, ctx, whole):
        self.k, self.seqs, self.pattern, self.ctx, self.whole = kind, seqs, pattern, ctx, whole
        self.L = len(seqs[0][1])

    def case(self, i):
        if getattr(self.k, "shared", False):
            return {"kind": self.k.name, "seqs": [[s, list(o)] for s, o in self.seqs], "pattern": self.pattern}
        st, ops = self.seqs[i]
        return {"kind": self.k.name, "seqs": [[st, list(ops)]], "pattern": self.pattern}

    def fail(self, i, sig, what):
        st, ops = self.seqs[i]
        self.bad.add(i)
        self.ctx.fail(self.case(i), f"{self.k.name}: {sig}", f"start {st}, operations {ops}, barriers {self.pattern}: {what}")

    def handles(self):
        root = CRoot()
        self.E = list(root.elems)
        self.H = [h.c for h in root.holders]

    def prepare(self, root):
        pass

    def stored(self, c):
        return c

    def barrier(self, b):
        if b == "c":
            db0.commit()
            db0.clear_cache()
        elif b == "m":
            db0.commit()
        elif b == "r" or b == "w":
            self.H = self.E = None
            gc.collect()
            db0.commit()
            S.restart(self.d, PX, "r" if b == "r" else "rw")
            self.handles()
        elif b == "f":                     # new Python handles, nothing committed
            self.H = None
            self.handles()

    def compare(self, where):
        for i, ref in enumerate(self.R):
            if i in self.bad:
                continue
            try:
                got = self.k.content(self.H[i])
            except RecursionError:
                raise
            except Exception as e:
                self.fail(i, "the contents cannot be read", f"{where}: {type(e).__name__}: {e}")
                continue
            want = self.k.content(ref)
            self.ctx.count("observations")
            if got != want:
                self.fail(i, "the contents differ from Python's", f"{where}: dbzero {str(got)[:600]}, Python {str(want)[:600]}")

    def step(self, i, o):
        f = self.k.ops[o]
        got = attempt(f, self.H[i], self.E)
        if o in self.k.sync:
            msg = self.k.sync[o](self.R[i], got)
            if msg:
                self.fail(i, f"{o} misbehaves", msg)
        else:
            want = attempt(f, self.R[i], self.RE)
            if not same(got, want):
                self.fail(i, f"{o} returns something else than Python's", f"dbzero {str(got)[:400]}, Python {str(want)[:400]}")
        self.ctx.count("ops")

    def run(self):
        ctx, k = self.ctx, self.k
        self.bad = set()
        ctx.begin({"kind": k.name, "seqs": [[s, list(o)] for s, o in self.seqs], "pattern": self.pattern})
        self.d = ctx.scratch()
        S.start(self.d, PX)
        try:
            root = CRoot()
            for i in range(SHARED):
                root.elems.append(CElem(i))
            self.E = list(root.elems)
            self.RE = [Ref(i) for i in range(SHARED)]
            self.R, self.H = [], []
            self.prepare(root)
            for st, ops in self.seqs:
                self.R.append(k.starts[st](self.RE))
                c = k.make(k.starts[st](self.E))
                root.holders.append(CHolder(self.stored(c)))
                self.H.append(c)
            root = c = None
            self.barrier(self.pattern[0])
            for s in range(self.L):
                self.all_steps(s)
                self.barrier(self.pattern[s + 1])
                if s % 2 == 0:
                    self.compare(f"after operation {s + 1}")
            self.compare("live")
            for i in range(len(self.seqs)):
                if i in self.bad:
                    continue
                ctx.state((k.name, k.content(self.R[i])))
                self.read(i)
            self.barrier("m")
            self.compare("after commit")
            self.refcounts("after commit")
            self.barrier("c")
            self.compare("after clearing the caches")
            self.barrier("r")
            self.compare("after re-opening read-only")
            self.refcounts("after re-opening")
            if self.destroys and not self.bad:
                self.destroy()
            ctx.count("histories", len(self.seqs))
        finally:
            self.H = self.E = None
            S.stop()
            ctx.drop(self.d)

    def all_steps(self, s):
        """Operation s of every sequence, on its own or inside one atomic block that completes (A) or is cancelled (X)."""
        mode = self.pattern.split("|")[1][s] if "|" in self.pattern else "."
        if mode == ".":
            return self.step_each(s)
        before = copy.deepcopy(self.R)
        with db0.atomic() as a:
            self.step_each(s)
            if mode == "X":
                a.cancel()
        if mode == "X":
            self.R = before

    def step_each(self, s):
        for i in range(len(self.seqs)):
            if i not in self.bad:
                self.step(i, self.seqs[i][1][s])

    def read(self, i):
        for n, f in self.k.readers.items():
            got, want = attempt(f, self.H[i], self.E), attempt(f, self.R[i], self.RE)
            self.ctx.count("reads")
            if not same(got, want):
                self.fail(i, f"{n} returns something else than Python's", f"dbzero {str(got)[:400]}, Python {str(want)[:400]}")
                break

    def destroy(self):
        self.H = self.E = None
        gc.collect()
        S.restart(self.d, PX, "rw")
        root = CRoot()
        root.holders.clear()
        gc.collect()
        db0.commit()
        db0.clear_cache()
        db0.commit()
        self.E, self.R = list(root.elems), []
        root = None
        self.refcounts("after dropping the collections")

    def refcounts(self, where):
        """Only meaningful for the batch as a whole; a mismatch is narrowed down by running its sequences one by one."""
        want = [1] * SHARED                              # root.elems
        for i, r in enumerate(self.R):
            if i in self.bad:
                return
            for x in refs_in(r):
                want[x] += 1
        gc.collect()
        got = [db0.getrefcount(e) for e in self.E]
        self.ctx.count("refcounts", SHARED)
        if got == want:
            return
        if where.startswith("after dropping"):
            self.ctx.fail({"kind": self.k.name, "seqs": [[s, list(o)] for s, o in self.seqs], "pattern": self.pattern},
                          f"{self.k.name}: dropped collections keep references to their elements", f"{where}: counts {got}, 1 each expected")
            return
        if len(self.seqs) == 1:
            self.fail(0, "references to elements are miscounted", f"{where}: counts {got}, occurrences {want}")
            return
        self.narrow = True


def explore(kind, seqs, pattern, ctx, Batch=Batch):
    b = Batch(kind, seqs, pattern, ctx, True)
    b.narrow = False
    b.run()
    if b.narrow:
        for s in seqs:
            c = Batch(kind, [s], pattern, ctx, False)
            c.narrow = False
            c.run()


def pattern_of(p, depth):
    """'.' nothing, 'c' commit + clear caches, 'r' … expanded to one barrier before and one after every operation"""
    if "/" in p:                       # barriers / how each operation is executed
        p, modes = p.split("/")
        return pattern_of(p, depth) + "|" + modes
    return {"none": "." * (depth + 1), "clear": "c" * (depth + 1), "reopen": "w" * (depth + 1), "handles": "f" * (depth + 1),
            "commit": "m" * (depth + 1), "mixed": ("cm.w" * depth)[:depth + 1]}[p]


def tasks(kind, depth, starts, patterns, ops=None, batch=400):
    """Every sequence of `depth` operations from each of the starts, split into tasks by the first operations."""
    import itertools
    ops = list(ops or kind.ops)
    res = []
    for p in patterns:
        for st in starts:
            n = 1
            while n < depth and len(ops) ** (depth - n) > batch:
                n += 1
            for head in itertools.product(ops, repeat=n):
                res.append({"kind": kind.name, "start": st, "head": list(head), "depth": depth, "pattern": p, "ops": ops})
    # merge small tasks
    out, cur = [], []
    for t in res:
        t["n"] = len(ops) ** (depth - len(t["head"]))
        if cur and (cur[0]["pattern"] != t["pattern"] or sum(x["n"] for x in cur) + t["n"] > batch):
            out.append(cur)
            cur = []
        cur.append(t)
    if cur:
        out.append(cur)
    return [{"kind": kind.name, "heads": [[t["start"], t["head"]] for t in g], "depth": depth, "p": g[0]["pattern"], "alphabet": ops}
            for g in out]


def run_task(kind, t, ctx, Batch=Batch):
    import itertools
    if "seqs" in t:
        return explore(kind, [(s, tuple(o)) for s, o in t["seqs"]], t["pattern"], ctx, Batch)
    seqs = []
    for st, head in t["heads"]:
        for rest in itertools.product(t["alphabet"], repeat=t["depth"] - len(head)):
            seqs.append((st, tuple(head) + rest))
    explore(kind, seqs, pattern_of(t["p"], t["depth"]), ctx, Batch)
    ctx.sample({"start": seqs[0][0], "ops": seqs[0][1], "pattern": t["p"]})
