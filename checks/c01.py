"""C01  Committed data survives close / reopen, unchanged and complete.

Bounded space: every sequence of up to DEPTH operations of the world alphabet (one per kind of object and mutation), cut
into transactions in every way of a menu (nothing / commit / commit+clear_cache / close+reopen between operations), with the
process re-opening the prefix read-only and read-write at the end.  Oracle: the plain Python model of lib/world.py.
"""
import itertools
import dbzero as db0
import world as W, session as S

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of operation/transaction sequences on the real library vs a reference model"
ASSUMPTIONS = ["single process, single thread, autocommit off (autocommit: C17)"]
RULE = "a history = operation sequence x transaction cuts; distinct states = distinct model states reached"

CUTS = ["none", "commit", "commit+clear", "reopen"]
CORE = ["n=7", "n=14", "l+", "l+big", "l.pop", "d[new]=", "d.big", "del d[k]", "d[k]=", "s.big", "s.remove", "ba+", "A.new", "A.v=",
        "A.tag a", "A.untag a", "A.idx+", "A.idx-", "A.drop", "B.new", "B.tag a", "dyn=", "A.ref", "tup="]


def plan(tier):
    ops = list(W.OPS)
    tasks = []
    for a in ops:                                   # every pair, every cut after the first operation
        tasks.append({"pre": [], "first": a, "rest": ops, "depth": 2})
    deep = CORE if tier == "quick" else ops
    for a in ops if tier == "thorough" else CORE:   # repeated changes through handles the application keeps, over many commits
        tasks.append({"held": 1, "pre": "full", "first": a, "rest": ops, "depth": 2})
    for a in CORE:                                  # triples from a populated world
        for b in (deep if tier == "thorough" else CORE):
            if tier == "quick" and (CORE.index(a) + CORE.index(b)) % 2:
                continue
            tasks.append({"pre": "full", "first": a, "second": b, "rest": deep, "depth": 3})
    return tasks


FULL = ["A.new", "B.new", "A.tag a", "B.tag a", "B.tag b", "A.idx+", "l+big", "d[k]=", "d[new]=", "s.add", "tup=", "ba+", "A.ref", "l+nested"]


def run_history(h, ctx):
    """h = {"pre", "ops", "cuts", "cache"}: run, close, re-open both ways, compare everything."""
    d = ctx.scratch()
    ctx.begin(dict(h, history=1))
    m = W.new_model()

    def check(where, root=None, api=W.Lookup):
        x = W.diff(W.observe(api, root), W.expect(m))
        ctx.count("observations")
        if x:
            ctx.fail(dict(h, history=1), "lost or changed data " + where, f"{where} after {h}: {x}")
            return False
        return True

    cache = h.get("cache", S.SMALL_CACHE)
    S.start(d, W.PX, cache=cache)
    keep = []
    try:
        r = W.create()
        if h["pre"]:
            W.run_ops(r, m, FULL)
            db0.commit()
        if h.get("held"):
            k = list(r.kids.values())
            keep = [r.lst, r.dct, r.st, r.tup, r.ba, r.idx, r.kids, r.ref, k, [x.items for x in k]]
            k = None
        for o, cut in zip(h["ops"], h["cuts"]):
            if not W.run_ops(r, m, [o]):
                continue
            ctx.count("ops")
            ctx.state(W.expect(m))
            if cut == "commit":
                db0.commit()
            elif cut == "commit+clear":
                db0.commit()
                db0.clear_cache()
                if not check("after commit and clear_cache", r):
                    return
            elif cut == "reopen":
                r = None
                S.restart(d, W.PX, cache=cache)
                r = db0.fetch(W.Root)
        if not check("before close", r):
            return
        r = keep = None
        S.restart(d, W.PX, "r", cache=cache)
        if not check("after reopening read-only"):
            return
        S.restart(d, W.PX, "rw", cache=cache)
        if not check("after reopening read-write"):
            return
        r = db0.fetch(W.Root)
        W.run_ops(r, m, ["l+", "d[new]=", "A.new", "B.new", "s.add"])          # the reopened prefix must still be writable
        r = None
        S.restart(d, W.PX, "r", cache=cache)
        check("after writing to the reopened prefix")
        ctx.count("histories")
    finally:
        r = keep = None
        S.stop()
        ctx.drop(d)


def run_task(t, ctx):
    if t.get("history"):
        return run_history(t, ctx)
    if t.get("held"):
        for b in t["rest"]:
            ops = [t["first"], b] * 3
            run_history({"pre": t["pre"], "ops": ops, "cuts": ["commit"] * 5 + ["none"], "held": 1}, ctx)
            if ctx.tier == "thorough":
                run_history({"pre": t["pre"], "ops": ops, "cuts": ["none", "commit"] * 2 + ["commit", "none"], "held": 1}, ctx)
    elif t["depth"] == 2:
        for i, b in enumerate(t["rest"]):
            for cut in CUTS:
                if cut == "commit" and i % 2 == 0:
                    continue                          # subsumed by commit+clear except for cached reads
                run_history({"pre": t["pre"], "ops": [t["first"], b], "cuts": [cut, "none"]}, ctx)
    else:
        for i, c in enumerate(t["rest"]):
            cuts = [[("commit", "none", "none"), ("none", "reopen", "none"), ("commit+clear", "commit", "none"), ("reopen", "commit", "none")][i % 4]]
            if ctx.tier == "thorough":
                cuts = list(itertools.product(CUTS, CUTS, ["none"]))
            for cut in cuts:
                run_history({"pre": t["pre"], "ops": [t["first"], t["second"], c], "cuts": list(cut)}, ctx)
    ctx.sample({"ops": [t["first"], t.get("second"), t["rest"][-1]]})
