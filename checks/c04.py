"""C04  An atomic block applies all of its changes or none: after cancel() or an exception the data is what it was before the
block, after a normal exit all of it is there - for the live objects, for later commits and after re-opening.

Bounded space: [uncommitted operation] + atomic block of one or two operations, left normally / by exception / by cancel() +
[operation], over the world alphabet, with and without Python handles on the inner objects being held across the block.
Then sequences of blocks: every word over {plain operation, cancelled block, block of another operation cancelled, completed
block, commit} up to a length, starting from a prefix in which the operation's tags, index and collections are still unused.
The same words once more over a wide population: hundreds of objects of every size, so that many straddle the borders of the
data pages, all of which are changed at once by every step.
Oracle: the reference model (the block runs on a copy of the model that is dropped on cancel).
"""
import gc, itertools
import dbzero as db0
import world as W, session as S
from c01 import FULL, CORE

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of atomic-block histories on the real library vs a reference model"
ASSUMPTIONS = ["single process, single thread, autocommit off (autocommit and threads: C17)"]
EXITS = ["raise", "cancel", "close"]


def plan(tier):
    ops = list(W.OPS)
    tasks = []
    for a in ops:
        tasks.append({"pre": None, "a": a, "bs": [None] + ops, "post": "l+"})
        tasks.append({"pre": a, "a": None, "bs": CORE, "post": None})            # an uncommitted change, then the block
    for a in ops:
        tasks.append({"word": a, "other": "A.tag b" if a[0] != "A" else "l+", "letters": "oxkc", "len": 3})
    for h in "oxkc":
        for held in (False, True):
            tasks.append({"wide": 5 if tier == "thorough" else 4, "head": h, "held": held})
    for a in CORE:
        tasks.append({"word": a, "other": "l+", "letters": "oxykc" if tier == "thorough" else "oxc", "len": 5 if tier == "thorough" else 4})
    if tier == "thorough":
        for a in ops:
            for b in CORE:
                tasks.append({"word": a, "other": b, "letters": "oxyc", "len": 4})
        for p in CORE:
            for a in ops:
                tasks.append({"pre": p, "a": a, "bs": ops, "post": "A.v="})
        for a in ops:
            for c in CORE:
                tasks.append({"pre": None, "a": a, "bs": CORE, "post": c})
    return tasks


def hold(r):
    """Python handles on everything reachable, as an application would have."""
    k = list(r.kids.values())
    return [r.lst, r.dct, r.st, r.tup, r.ba, r.idx, r.kids, r.ref, k, [x.items for x in k]]


class Boom(Exception):
    pass


def run_history(h, ctx):
    ctx.begin(h)
    d = ctx.scratch()
    keep = []

    def check(where, root=None):
        x = W.diff(W.observe(W.Lookup, root), W.expect(m))
        ctx.count("observations")
        if x:
            ctx.fail(h, "an atomic block was applied in part or left traces", f"{where}, {h}: {x}")
            return False
        return True

    S.start(d, W.PX)
    try:
        m = W.new_model()
        r = W.create()
        W.run_ops(r, m, FULL)
        db0.commit()
        if h["pre"]:
            W.run_ops(r, m, [h["pre"]])
        if h["held"]:
            keep = hold(r)
        inner = W.clone(m)
        n = 0
        try:
            with db0.atomic() as at:
                for o in h["ops"]:
                    n += W.run_ops(r, inner, [o])
                x = W.diff(W.observe(W.Lookup, r), W.expect(inner)) if h["look"] else ""
                if x:
                    ctx.fail(h, "changes made inside an atomic block are not visible inside it", f"{h}: {x}")
                    return
                if h["exit"] == "raise":
                    raise Boom()
                if h["exit"] == "cancel":
                    at.cancel()
        except Boom:
            pass
        ctx.count("ops", n)
        if h["exit"] == "close":
            m = inner
        ctx.state((h["exit"], W.expect(m), W.expect(inner)))
        if not check("right after the block", r):
            return
        if h["post"]:
            W.run_ops(r, m, [h["post"]])
            if not check("after a later operation", r):
                return
        db0.commit()
        if not check("after commit", r):
            return
        with_snap = W.diff(W.observe(db0.snapshot()), W.expect(m))
        if with_snap:
            ctx.fail(h, "an atomic block was committed in part", f"snapshot after commit, {h}: {with_snap}")
            return
        r, keep = None, []
        S.restart(d, W.PX, "r")
        if not check("after re-opening"):
            return
        ctx.count("histories")
    finally:
        r, keep = None, []
        S.stop()
        ctx.drop(d)


def run_word(h, ctx):
    """A sequence of atomic blocks, plain operations and commits; everything is observed after every step."""
    ctx.begin(h)
    d = ctx.scratch()
    keep = []
    S.start(d, W.PX)
    try:
        m = W.new_model()
        r = W.create()
        W.run_ops(r, m, h["base"])
        db0.commit()
        if h["held"]:
            keep = hold(r)
        for i, c in enumerate(h["word"]):
            a = h["other"] if c == "y" else h["op"]
            if c == "c":
                db0.commit()
            elif c == "o":
                ctx.count("ops", W.run_ops(r, m, [a]))
            else:
                inner = W.clone(m)
                try:
                    with db0.atomic():
                        ctx.count("ops", W.run_ops(r, inner, [a]))
                        if c != "k":
                            raise Boom()
                except Boom:
                    pass
                if c == "k":
                    m = inner
            ctx.count("observations")
            ctx.state((c, W.expect(m)))
            x = W.diff(W.observe(W.Lookup, r), W.expect(m))
            if x:
                ctx.fail(h, "a sequence of atomic blocks left traces of a cancelled one", f"step {i} of {h}: {x}")
                return
        r, keep = None, []
        gc.collect()
        S.restart(d, W.PX, "r")
        x = W.diff(W.observe(W.Lookup), W.expect(m))
        if x:
            ctx.fail(h, "a sequence of atomic blocks left traces of a cancelled one", f"after re-opening {h}: {x}")
            return
        ctx.count("histories")
    finally:
        r, keep = None, []
        S.stop()
        ctx.drop(d)


@db0.memo(id="c04.Wide", singleton=True)
class Wide:
    def __init__(self):
        self.all = []
        self.idx = db0.index()


@db0.memo(id="c04.Item")
class Item:
    """Item i at version v holds values computed from (i, v) only."""
    def __init__(self, i):
        self.i = i
        self.v = 0
        self.s = text(i, 0)
        self.l = [0] * (i % 7 + 1)
        self.d = {k: 0 for k in range(i % 4 + 1)}
        self.b = db0.bytearray(bytes([0]) * (1 + i * 5 % 90))
        self.t = {-1}


def text(i, v):
    return "x" * (i * 7 % 61) + str(v)


def item_state(i, v):
    return v, text(i, v), [v] * (i % 7 + 1) + [v] * min(v, 1), {k: v for k in range(i % 4 + 1)}, \
        bytes([v]) * (1 + i * 5 % 90), {-1, v} if v else {-1}


def change_item(o, v0, v, idx):
    if v % 3 != v0 % 3:
        db0.tags(o).remove("m%d" % (v0 % 3))
        db0.tags(o).add("m%d" % (v % 3))
    idx.remove(v0, o)
    idx.add(v, o)
    o.v = v
    o.s = text(o.i, v)
    l = o.l
    for j in range(len(l)):
        l[j] = v
    if v0 == 0:
        l.append(v)
    for k in range(o.i % 4 + 1):
        o.d[k] = v
    for j in range(len(o.b)):
        o.b[j] = v
    if v0:
        o.t.remove(v0)
    o.t.add(v)


def wide_words(n, head):
    for k in range(1, n + 1):
        for w in itertools.product("oxkc", repeat=k):
            w = "".join(w)
            if w[0] == head and w[-1] != "c" and "cc" not in w and ("x" in w or "k" in w):
                yield w


def run_wide(h, ctx):
    ctx.begin(h)
    d = ctx.scratch()
    keep = []
    S.start(d, W.PX)
    try:
        r = Wide()
        for i in range(60):
            o = Item(i)
            r.all.append(o)
            db0.tags(o).add("m0")
            r.idx.add(0, o)
        db0.commit()
        vs = [0] * 60
        n = 0

        def hold_all():
            return [(o, o.l, o.d, o.b, o.t) for o in r.all] if h["held"] else []

        def look(r, stage):
            for i, o in enumerate(r.all):
                got = o.v, o.s, list(o.l), dict(o.d), bytes(o.b[j] for j in range(len(o.b))), set(o.t)
                if got != item_state(i, vs[i]):
                    ctx.fail(h, "a sequence of atomic blocks over many objects left traces of a cancelled one",
                             f"{stage} of {h}: item {i}: {got}, expected {item_state(i, vs[i])}")
                    return False
            got = [sorted(o.i for o in db0.find(Item, "m%d" % k)) for k in range(3)], \
                [sorted(o.i for o in r.idx.select(k, k)) for k in range(5)], len(r.idx)
            want = [[i for i in range(60) if vs[i] % 3 == k] for k in range(3)], \
                [[i for i in range(60) if vs[i] == k] for k in range(5)], 60
            if got != want:
                ctx.fail(h, "a sequence of atomic blocks over many objects left traces of a cancelled one",
                         f"{stage} of {h}: tags and index: {got}, expected {want}")
                return False
            ctx.count("observations")
            return True

        def change(r, vs, n, sel):
            for i, o in enumerate(r.all):
                if sel(i):
                    change_item(o, vs[i], n, r.idx)
                    vs[i] = n

        keep = hold_all()
        for j, c in enumerate(h["wide_word"]):
            n += 1
            if c == "c":
                db0.commit()
            elif c == "o":
                change(r, vs, n, lambda i: (i + n) % 2 == 0)
            else:
                inner = list(vs)
                try:
                    with db0.atomic():
                        keep = []                      # handles with changes of their own are dropped inside the block
                        change(r, inner, n, lambda i: (i + n) % 3)
                        if h["held"]:
                            db0.clear_cache()
                        if c == "x":
                            raise Boom()
                    vs = inner
                except Boom:
                    pass
                keep = hold_all()
            ctx.count("ops")
            if not look(r, f"step {j}"):
                return
        r, keep = None, []
        gc.collect()
        S.restart(d, W.PX, "r")
        if look(Wide(), "after re-opening"):
            ctx.count("histories")
    finally:
        r, keep = None, []
        S.stop()
        ctx.drop(d)


def run_task(t, ctx):
    if "wide_word" in t:
        return run_wide(t, ctx)
    if "wide" in t:
        for w in wide_words(t["wide"], t["head"]):
            run_wide({"wide_word": w, "held": t["held"]}, ctx)
        ctx.sample({"wide_word": w})
        return
    if "ops" in t:
        return run_history(t, ctx)
    if "op" in t:
        return run_word(t, ctx)
    if "word" in t:
        base = [] if t["word"].endswith(".new") else ["A.new", "B.new"]
        for w in itertools.product(t["letters"], repeat=t["len"]):
            w = "".join(w)
            if w[-1] == "c" or not ("x" in w or "y" in w):
                continue
            for held in (False, True):
                run_word({"op": t["word"], "other": t["other"], "word": w, "base": base, "held": held}, ctx)
        ctx.sample({"op": t["word"], "word": w})
        return
    for i, b in enumerate(t["bs"]):
        ops = [o for o in (t["a"], b) if o]
        for j, ex in enumerate(EXITS):
            if ctx.tier == "quick" and ex == "cancel" and i % 4:
                continue
            for held in ((False, True) if ex != "close" else (i % 2 == 0,)):
                run_history({"pre": t["pre"], "ops": ops, "exit": ex, "post": t["post"], "held": held, "look": (i + j) % 2 == 0}, ctx)
    ctx.sample({"pre": t["pre"], "ops": ops})
