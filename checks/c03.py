"""C03  A snapshot shows exactly one commit: never later (or uncommitted) changes, never a mixture, for as long as it is held;
and every past commit stays readable by its state number.

Bounded space: every sequence of DEPTH operations of the world alphabet from a populated world, a commit after each but the
last; every snapshot handle taken on the way plus every state number re-opened is compared with the reference model of its
commit at every stage (after the next operation, after the next commit, after clear_cache, after re-opening the prefix).

Several prefixes: every word over {change one of two prefixes, commit one / all, take a snapshot of the current states / of
numbered states, first read of a prefix through the held snapshots, make the other prefix the current one}.
"""
import gc, itertools
import dbzero as db0
import world as W, session as S
from c01 import FULL, CORE

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of operation/commit/snapshot sequences on the real library vs a reference model"
ASSUMPTIONS = ["single process, single thread, autocommit off"]


def plan(tier):
    ops = list(W.OPS)
    tasks = [{"first": a, "rest": ops, "depth": 2} for a in ops]
    core = CORE if tier == "quick" else ops
    for i, a in enumerate(CORE):
        for j, b in enumerate(core):
            if tier == "thorough" or (i + 2 * j) % 3 == 0:
                tasks.append({"first": a, "second": b, "rest": CORE, "depth": 3})
    n = 4 if tier == "quick" else 6
    for h in itertools.product(LETTERS, repeat=n - 3):
        tasks.append({"n": n, "head": "".join(h)})
    for opened in ("a", "b", "ab", "ba"):
        for mode in ("rw", "r"):
            tasks.append({"opened": opened, "mode": mode, "length": 2 if tier == "quick" else 3})
    return tasks


@db0.memo(id="c03.P")
class P:
    def __init__(self, v):
        self.v = v
        self.l = [v]
        self.d = {"k": v}


# a / b: change that prefix;  A / B: commit it;  C: commit all;  s: snapshot;  t: snapshot at numbered states ({prefix: number});
# x / y: read prefix a / b through all held snapshots;  o: make the other prefix the current one
LETTERS = "abABCstxyo"


def words(n, alphabet=LETTERS):
    for w in itertools.product(alphabet, repeat=n):
        w = "".join(w)
        if ("s" in w or "t" in w) and ("a" in w or "b" in w) and not any(p in w for p in ("oo", "xx", "yy", "AA", "BB", "CC")):
            yield w


def read_p(s, px, uid, tag):
    o = s.fetch(uid)
    t = sorted(x.v for x in s.find(P, tag, prefix=px))
    return o.v, list(o.l), dict(o.d), t


def run_word(h, ctx):
    """One word; the objects live in prefixes that survive the words of a task, so that a session costs once."""
    ctx.begin(h)
    d = ctx.scratch()
    S.start(d)
    try:
        objs, uid = {}, {}
        for px in "ab":
            db0.open(px, "rw")
            objs[px] = P(0)
            db0.tags(objs[px]).add("x")
            uid[px] = db0.uuid(objs[px])
        db0.commit()
        for w in h["words"]:
            one_word(w, objs, uid, ctx)
            ctx.count("histories")
        objs.clear()
    finally:
        objs = None
        S.stop()
        ctx.drop(d)


def one_word(w, objs, uid, ctx):
    case = {"words": [w]}
    cur = {px: objs[px].v for px in "ab"}         # current value
    com = dict(cur)                               # committed value
    def number(px):
        return db0.get_state_num(px, finalized=True)
    byno = {px: {number(px): com[px]} for px in "ab"}
    held = []
    lists = {px: {cur[px]: list(objs[px].l)} for px in "ab"}
    def check(px, stage):
        for s, e, l in held:
            v = e[px]
            got = read_p(s, px, uid[px], "x")
            ctx.count("snapshot_reads")
            if got != (v, lists[px][v], {"k": v}, [v]):
                ctx.fail(case, "a snapshot shows another state of a prefix than the one it was taken at",
                         f"{w!r} {stage}: snapshot {l} shows prefix {px!r} as {got}, taken at {v}")
                return False
        return True
    ok = True
    try:
        for i, c in enumerate(w):
            ctx.count("ops")
            stage = f"at letter {i}"
            if c in "ab":
                o = objs[c]
                n = cur[c] + 1
                o.v = n
                o.l.append(n)
                o.d["k"] = n
                cur[c] = n
                lists[c][n] = lists[c][n - 1] + [n]
            elif c in "AB":
                px = c.lower()
                db0.commit(px)
                com[px] = cur[px]
                byno[px][number(px)] = com[px]
            elif c == "C":
                db0.commit()
                com = dict(cur)
                for px in "ab":
                    byno[px][number(px)] = com[px]
            elif c == "s":
                held.append((db0.snapshot(), dict(com), f"{i}"))
            elif c == "t":
                first = {px: min(byno[px]) for px in "ab"}
                held.append((db0.snapshot(first), {px: byno[px][first[px]] for px in "ab"}, f"{i} of {first}"))
            elif c == "o":
                db0.open("a" if db0.get_current_prefix().name == "b" else "b", "rw")
            else:
                ok = check("a" if c == "x" else "b", stage)
            if not ok:
                return
        ctx.state((tuple(sorted(cur.items())), tuple(sorted(com.items())), tuple(l for _, _, l in held)))
        for px in "ab" if w.count("a") % 2 else "ba":
            if not check(px, "at the end"):
                return
        for px in "ab":
            if objs[px].v != cur[px] or list(objs[px].l) != lists[px][cur[px]]:
                ctx.fail(case, "reading snapshots changed the live state", f"{w!r}: prefix {px!r}")
                return
    finally:
        for s, _, _ in held:
            s.close()
        held.clear()
        for px in "ab":                           # keep the lists short
            if cur[px] > 40:
                o = objs[px]
                o.v = 0
                o.l = [0]
                o.d["k"] = 0
        db0.commit()


# after the snapshot was made - 0/1: read prefix a/b through it;  b: open b for writing;  B: change and commit b;  a: change a, not
# committed;  A: change and commit a;  c: clear_cache
LATE = "01bBaAc"


def late_words(n):
    for k in range(1, n + 1):
        for w in itertools.product(LATE, repeat=k):
            if w[-1] in "01" and "bb" not in "".join(w):
                yield "".join(w)


def run_late(h, ctx):
    """Snapshots by state number, of prefixes which may not be open yet; numbers out of range must be refused."""
    d = ctx.scratch()
    uid, known = {}, {}
    S.start(d)
    try:
        for px, n in (("a", 2), ("b", 4)):
            db0.open(px, "rw")
            o = P(0)
            db0.tags(o).add("x")
            uid[px] = db0.uuid(o)
            db0.commit()
            known[px] = {db0.get_state_num(px, finalized=True): 0}
            for v in range(1, n):
                o.v = v
                o.l.append(v)
                o.d["k"] = v
                db0.commit()
                known[px][db0.get_state_num(px, finalized=True)] = v
            o = None
        S.stop()
        top = max(max(known["a"]), max(known["b"])) + 3
        specs = [{"a": n} for n in range(0, top)] + [{"b": n} for n in range(0, top)]
        specs += [{"a": n, "b": m} for n in known["a"] for m in list(known["b"]) + [top, 0]]
        todo = [(s, w) for s in specs for w in late_words(h["length"])] if "spec" not in h else [(h["spec"], h["word"])]
        S.start(d)
        for px in h["opened"]:
            db0.open(px, h["mode"])
        for spec, w in todo:
            if any(p not in h["opened"] and (p not in spec or p not in "b") for i, p in enumerate("ab") if str(i) in w):
                continue
            if h["mode"] == "r" and set(w) & set("aABb") or "a" not in h["opened"] and set(w) & set("aA"):
                continue
            if "B" in w and not ("b" in h["opened"] or "b" in w[:w.index("B")]):
                continue
            late_word(dict(h, spec=spec, word=w), known, uid, ctx)
            if "b" in w or "B" in w or ("1" in w and "b" not in h["opened"]):        # back to the initial set of open prefixes
                S.stop()
                S.start(d)
                for px in h["opened"]:
                    db0.open(px, h["mode"])
    finally:
        S.stop()
        ctx.drop(d)


def late_word(case, known, uid, ctx):
    spec, w = case["spec"], case["word"]
    ctx.begin(case)
    ctx.count("histories")
    def state(v):
        return v, list(range(v + 1)), {"k": v}, [v]
    cur = {}
    try:
        s = db0.snapshot(spec)
    except Exception:
        if any(n in known.get(p, ()) for p, n in spec.items()) and all(n in known[p] or p not in case["opened"] for p, n in spec.items()):
            ctx.fail(case, "a snapshot of a committed state is refused", f"{spec}, known states {known}")
        return
    dirty = False
    try:
        before = {p: dict(known[p]) for p in known}
        for i, c in enumerate(w):
            ctx.count("ops")
            if c in "01":
                px = "ab"[int(c)]
                try:
                    got = read_p(s, px, uid[px], "x")
                except Exception as e:
                    got = ("raised", type(e).__name__, str(e)[:100])
                ctx.count("snapshot_reads")
                n = spec.get(px)
                if n is None:
                    if got[0] == "raised" or px in case["opened"] and got != state(before[px][max(before[px])]) or got[0] not in known[px].values():
                        ctx.fail(case, "a prefix left open in a snapshot's specification shows another state than the head",
                                 f"snapshot({spec}) {w!r} at {i}: {px!r}: {got}, commits {known[px]}")
                        return
                elif n in before[px] and got != state(before[px][n]) or n not in before[px] and got[0] != "raised":
                    ctx.fail(case, "a snapshot by state number shows something else than that commit",
                             f"snapshot({spec}) {w!r} at {i}: {px!r}: {got}, commits {before[px]}")
                    return
            elif c == "b":
                db0.open("b", "rw")
            elif c == "c":
                db0.clear_cache()
            else:
                px = c.lower()
                o = db0.fetch(uid[px])
                v = o.v
                o.v = v + 1
                o.l.append(v + 1)
                o.d["k"] = v + 1
                o = None
                if c in "AB":
                    db0.commit()
                    known[px][db0.get_state_num(px, finalized=True)] = v + 1
                    if dirty and px != "a":
                        known["a"][db0.get_state_num("a", finalized=True)] = cur["a"]
                    dirty = False
                else:
                    dirty = True
                    cur[px] = v + 1
        ctx.state((repr(spec), w, case["opened"], case["mode"]))
    finally:
        s.close()
        if dirty:
            db0.commit()
            known["a"][db0.get_state_num("a", finalized=True)] = cur["a"]


def run_history(h, ctx):
    ctx.begin(h)
    d = ctx.scratch()
    held = []                                     # (snapshot, expectation, label)
    byno = {}                                     # state number -> expectation

    def verify(stage, handles=True, numbers=True):
        todo = []
        if handles:
            todo += [(s, e, "held " + l) for s, e, l in held]
        if numbers:
            todo += [(db0.snapshot(n), e, "re-opened state %d" % n) for n, e in byno.items()]
        for s, e, l in todo:
            x = W.diff(W.observe(s), e)
            ctx.count("snapshot_reads")
            if x:
                ctx.fail(h, "a snapshot shows other data than its commit", f"{stage}: {l} of {h['ops']}: {x}")
                return False
        return True

    def committed(label):
        e = W.expect(m)
        ctx.state(e)
        held.append((db0.snapshot(), e, label))
        byno[db0.get_state_num(finalized=True)] = e

    S.start(d, W.PX)
    try:
        m = W.new_model()
        r = W.create()
        W.run_ops(r, m, FULL)
        db0.commit()
        committed("initial")
        for i, o in enumerate(h["ops"]):
            if not W.run_ops(r, m, [o]):
                continue
            ctx.count("ops")
            if not verify(f"after uncommitted {o}", numbers=i == 0):
                return
            if i < len(h["ops"]) - 1:
                db0.commit()
                committed(f"after {h['ops'][:i + 1]}")
                if not verify(f"after commit of {o}", numbers=False):
                    return
        db0.clear_cache()
        gc.collect(0)
        if not verify("after clear_cache"):
            return
        x = W.diff(W.observe(W.Lookup, r), W.expect(m))
        if x:
            ctx.fail(h, "reading snapshots changed the live state", f"{h['ops']}: {x}")
            return
        db0.commit()
        committed("last")
        if not verify("after the last commit", numbers=False):
            return
        held.clear()
        r = None
        S.restart(d, W.PX, "r")
        if not verify("after re-opening read-only"):
            return
        ctx.count("histories")
    finally:
        held.clear()
        r = None
        S.stop()
        ctx.drop(d)


def run_task(t, ctx):
    if "words" in t:
        return run_word(t, ctx)
    if "opened" in t:
        return run_late(t, ctx)
    if "n" in t:
        ws = [w for w in words(t["n"]) if w.startswith(t["head"])]
        for i in range(0, len(ws), 100):
            run_word({"words": ws[i:i + 100]}, ctx)
        ctx.sample({"words": ws[-1:]})
        return
    if "ops" in t:
        return run_history(t, ctx)
    for c in t["rest"]:
        run_history({"ops": [t["first"], c] if t["depth"] == 2 else [t["first"], t["second"], c]}, ctx)
    ctx.sample({"ops": [t["first"], t.get("second"), t["rest"][-1]]})
