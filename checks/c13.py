"""C13  Weak references never keep objects alive and report expiry.

Bounded space: every word up to the depth over letters that create objects, put weak references to them everywhere a value can
be stored (members, lists, tuples, dicts, sets, weak sets; in the same prefix and in another one, explicitly or by assignment
across prefixes), drop the last reference, hold Python variables, tag, fill the freed addresses with new objects of the same
and other kinds, commit, clear caches, re-open, take snapshots, and atomic blocks that complete or are cancelled.
After every letter every weak reference is followed and compared with a model that counts strong references.
"""
import copy
import gc
import itertools
import os
import traceback
import dbzero as db0
import session as S

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of weak reference histories on the real library against a model counting strong references"
ASSUMPTIONS = ["single process, single thread"]


@db0.memo
class WT:
    def __init__(self, i):
        self.i = i
        self.l = []


@db0.memo
class WJ:
    """What fills freed addresses"""
    def __init__(self, i):
        self.i, self.a, self.b = i, "junk", None


@db0.memo
class WG:
    def __init__(self, i):
        self.i, self.keep, self.m, self.l, self.t, self.d, self.s, self.ws, self.ws2, self.junk, self.li, self.o = i, [], None, [], None, {}, set(), db0.weak_set(), None, [], [None], None


@db0.memo
class WH:
    """Given the weak reference while being constructed in the other prefix"""
    def __init__(self, w):
        db0.set_prefix(self, "b")
        self.w = w


@db0.memo(singleton=True)
class WRoot:
    def __init__(self):
        self.groups = []


PLACES = "mltdswBbWeEiyqA"
CORE = "DnFcCV"
ALL = PLACES + "DnNFcCRVvTUxkpzjo1"


class Model:
    def __init__(self):
        self.next, self.cur, self.prev = 0, None, None
        self.keep, self.tags, self.var = [], set(), None
        self.ref = {p: [] for p in "mltdswBbWkeEiyqA"}       # place -> targets in order
        self.maybe = set()                               # dead, the deletion not committed yet
        self.made = set()

    def strong(self, i):
        return self.keep.count(i) + (i in self.tags)

    def alive(self, i):
        return self.strong(i) > 0 or self.var == i

    def dead_since(self, before):
        for i in before:
            if not self.alive(i):
                self.maybe.add(i)


class Bad(Exception):
    pass


class Run:
    def __init__(self, d, ctx, n):
        self.d, self.ctx, self.n = d, ctx, n
        self.uuids, self.px = {}, {}
        db0.open("a", "rw")
        self.g = WG(n)
        WRoot().groups.append(self.g)
        db0.open("b", "rw")
        self.h = WG(n)
        WRoot().groups.append(self.h)
        db0.open("a", "rw")
        self.gu, self.hu = db0.uuid(self.g), db0.uuid(self.h)
        self.M, self.var, self.snaps = Model(), None, []

    def get(self, i):
        return db0.fetch(self.uuids[i])

    def step(self, c):
        """False when the letter means nothing in this state"""
        M, g, h = self.M, self.g, self.h
        i = M.cur
        before = [k for k in M.made if M.alive(k)]
        live = i is not None and M.alive(i)
        if c == "n":
            M.prev, M.cur = i, M.next
            M.next += 1
            M.keep.append(M.cur)
            M.made.add(M.cur)
            o = WT(1000 * self.n + M.cur)
            g.keep.append(o)
            self.uuids[M.cur] = db0.uuid(o)
        elif c == "N":
            if M.prev is None:
                return False
            M.cur, M.prev = M.prev, M.cur
        elif c in "cC":
            self.commit(c == "C")
        elif c == "R":
            self.reopen("rw")
        elif c == "F":
            g.junk.append([WJ(k) for k in range(3)])
            for k in range(3):
                g.junk.append(WT(-5 - k))
        elif c == "j":
            g.junk.clear()
        elif c == "z":
            if len(self.snaps) >= 2:
                return False
            self.commit(False)
            s = db0.snapshot()
            self.snaps.append((s, copy.deepcopy(M)))
        elif c == "v":
            if M.var is None:
                return False
            M.var = self.var = None
        elif c == "p":
            m = M.ref["m"]
            if not m or not M.alive(m[0]):
                return False
            g.l.append(db0.weak_proxy(g.m))
            M.ref["l"].append(m[0])
        elif c == "k":
            g.ws2 = g.ws.copy()
            M.ref["k"] = [k for k in M.ref["w"] if M.alive(k) or k in M.maybe]
        elif c == "o":                                    # overwrite every place in the same prefix
            g.m, g.t = None, None
            g.l.clear()
            g.d.clear()
            g.s = set()
            for p in "mltdse":
                M.ref[p] = []
        elif c == "1":                                    # a strong reference, then the weak member overwritten by the object itself
            if not live:
                return False
            g.keep.append(self.get(i))
            M.keep.append(i)
        elif not live:
            return False
        elif c == "D":
            if i not in M.keep:
                return False
            g.keep.remove(self.get(i))
            M.keep.remove(i)
        elif c == "V":
            if M.var is not None:
                return False
            self.var = self.get(i)
            M.var = i
        elif c == "T":
            db0.tags(self.get(i)).add("c13")
            M.tags.add(i)
        elif c == "U":
            if i not in M.tags:
                return False
            db0.tags(self.get(i)).remove("c13")
            M.tags.discard(i)
        elif c == "x":
            if i not in M.ref["w"]:
                return False
            g.ws.remove(self.get(i))
            M.ref["w"].remove(i)
        else:
            o = self.get(i)
            w = db0.weak_proxy(o)
            if c == "m":
                g.m = w
                M.ref["m"] = [i]
            elif c == "l":
                g.l.append(w)
                M.ref["l"].append(i)
            elif c == "t":
                g.t = (1, w)
                M.ref["t"] = [i]
            elif c == "d":
                g.d["k"] = w
                M.ref["d"] = [i]
            elif c == "s":
                if M.ref["s"]:
                    return False
                g.s.add(w)
                M.ref["s"].append(i)
            elif c == "w":
                g.ws.add(o)
                if i not in M.ref["w"]:
                    M.ref["w"].append(i)
            elif c == "B":
                if not M.strong(i):
                    return False
                h.m = o
                M.ref["B"] = [i]
            elif c == "b":
                h.l.append(w)
                M.ref["b"].append(i)
            elif c == "W":
                h.ws.add(o)
                if i not in M.ref["W"]:
                    M.ref["W"].append(i)
            elif c == "e":
                g.d["late"] = [w, w]
                M.ref["e"] = [i, i]
            elif c == "E":
                h.d["x"] = {"y": w}
                M.ref["E"] = [i]
            elif c == "i":
                h.li[0] = w
                M.ref["i"] = [i]
            elif c == "y":
                h.t = (1, w)
                M.ref["y"] = [i]
            elif c == "q":
                if M.ref["q"]:
                    return False
                h.s.add(w)
                M.ref["q"].append(i)
            elif c == "A":
                h.o = WH(w)
                M.ref["A"] = [i]
            o = w = None
        M.dead_since(before)
        return True

    def commit(self, clear):
        db0.commit()
        self.M.maybe.clear()
        if clear:
            db0.clear_cache()

    def reopen(self, mode):
        for s, _ in self.snaps:
            s.close()
        self.snaps = []
        M = self.M
        before = [k for k in M.made if M.alive(k)]
        self.g = self.h = self.var = None
        M.var = None
        gc.collect()
        db0.commit()
        S.stop()
        S.start(self.d)
        db0.open("b", mode)
        db0.open("a", mode)
        self.g, self.h = db0.fetch(self.gu), db0.fetch(self.hu)
        M.dead_since(before)
        if mode == "rw":
            # an unreferenced object held by the variable is deleted when closing
            M.maybe.clear()

    def block(self, c, cancel):
        if c in "cCRzVvN":
            return False
        M0 = copy.deepcopy(self.M)
        uu = dict(self.uuids)
        with db0.atomic() as a:
            ok = self.step(c)
            if cancel:
                a.cancel()
        if not ok:
            return False
        if cancel:
            self.M, self.uuids = M0, uu
        return True

    def places(self, g, h):
        g_ws2 = g.ws2
        return {"m": [] if g.m is None else [g.m], "l": list(g.l), "t": [] if g.t is None else [g.t[1]], "d": [g.d["k"]] if "k" in g.d else [], "s": list(g.s),
                "B": [] if h.m is None else [h.m], "b": list(h.l), "e": list(g.d["late"]) if "late" in g.d else [], "E": [h.d["x"]["y"]] if "x" in h.d else [],
                "i": [x for x in h.li if x is not None], "y": [] if h.t is None else [h.t[1]], "q": list(h.s), "A": [] if h.o is None else [h.o.w],
                "w": g.ws, "W": h.ws, "k": g_ws2}

    def verify(self, M, g, h, get, snap=None):
        for i in M.made:
            if M.alive(i):
                o = get(i)
                if o.i != 1000 * self.n + i:
                    raise Bad("an object has become another one", f"{o.i} {i}")
                if not snap:
                    n = db0.getrefcount(o)
                    if n != M.strong(i):
                        raise Bad("a weak reference changes the reference count", f"object {i}: {n}, strong references {M.strong(i)}")
                o = None
            elif i not in M.maybe and not snap and db0.exists(self.uuids[i]):
                raise Bad("an object is kept alive by weak references", f"object {i}")
        for p, vals in self.places(g, h).items():
            want = M.ref[p]
            self.ctx.count("references", len(want))
            if p in "wWk":
                if vals is None:
                    if want:
                        raise Bad("a weak set is lost", p)
                    continue
                got = sorted(o.i - 1000 * self.n for o in vals)
                must = sorted(i for i in want if M.alive(i))
                may = sorted(i for i in want if M.alive(i) or i in M.maybe)
                if not set(must) <= set(got) <= set(may) or len(set(got)) != len(got):
                    raise Bad("a weak set does not hold exactly its live members", f"{p}: {got} expected {must} (may {may})")
                if len(vals) != len(got):
                    raise Bad("the length of a weak set is not the number of its live members", f"{p}: {len(vals)} {got}")
                if not snap:
                    for i in M.made:
                        if M.alive(i):
                            o = get(i)
                            if (o in vals) != (i in want):
                                raise Bad("membership in a weak set is wrong", f"{p}: object {i}: {o in vals}")
                            o = None
                continue
            if len(vals) != len(want):
                raise Bad("a weak reference is lost", f"{p}: {len(vals)} references, expected {want}")
            for v, i in zip(vals, want):
                e = db0.expired(v)
                if e:
                    if M.alive(i):
                        raise Bad("a weak reference to a live object has expired", f"{p}: object {i}")
                    try:
                        v.i
                        raise Bad("reading through an expired reference succeeds", f"{p}: object {i}")
                    except db0.ReferenceError:
                        pass
                    if not snap and db0.uuid(v) != self.uuids[i]:
                        raise Bad("an expired reference has another uuid", f"{p}: object {i}: {db0.uuid(v)} {self.uuids[i]}")
                    if type(v) is WT or not repr(v) or not str(type(v)):
                        raise Bad("an expired reference passes for an object", p)
                else:
                    if not M.alive(i) and i not in M.maybe:
                        raise Bad("a reference to a deleted object has not expired", f"{p}: object {i}: gives {type(v).__name__} {getattr(v, 'i', None)}")
                    if type(v) is not WT or v.i != 1000 * self.n + i:
                        raise Bad("a weak reference gives another object", f"{p}: object {i}: gives {type(v).__name__} {getattr(v, 'i', None)}")
                    if not snap and M.alive(i) and (v is not get(i) or db0.uuid(v) != self.uuids[i]):
                        raise Bad("a weak reference gives another identity of the object", f"{p}: object {i}")
            v = None

    def check(self, where):
        self.ctx.count("states")
        self.verify(self.M, self.g, self.h, self.get)
        for s, m in self.snaps:
            m.var = None
            self.verify(m, s.fetch(self.gu), s.fetch(self.hu), lambda i: s.fetch(self.uuids[i]), snap=s)

    def close(self):
        for s, _ in self.snaps:
            s.close()
        self.snaps = []
        self.var = None


def run_words(ws, ctx):
    d = ctx.scratch()
    S.start(d)
    R, done = None, []
    try:
        for n, w in enumerate(ws):
            case = {"words": [list(x) if False else x for x in ws[:n + 1]]}
            ctx.begin(case)
            R = Run(d, ctx, n)
            ok, where = True, ""
            try:
                mod = ""
                R.step("n")
                for k, c in enumerate(w):
                    if c in "@!":
                        mod = c
                        continue
                    where = f"word {w!r} at {k}"
                    ctx.count("ops")
                    ok = R.block(c, mod == "!") if mod else R.step(c)
                    mod = ""
                    if not ok:
                        break
                    R.check(where)
                if ok:
                    R.close()
                    ctx.state(w)
                    ctx.count("histories")
                    if R.M.var is not None:
                        b = [k for k in R.M.made if R.M.alive(k)]
                        R.M.var = None
                        R.M.dead_since(b)
                    where = f"word {w!r} after commit"
                    R.commit(False)
                    R.check(where)
                    done.append((w, R.M, dict(R.uuids), R.gu, R.hu, n))
            except Bad as e:
                ctx.fail(case, e.args[0], f"{where}: {e.args[1]}")
                return
            except Exception as e:
                if os.environ.get("TB"):
                    traceback.print_exc()
                ctx.fail(case, "an operation on weak references fails", f"{where}: {type(e).__name__}: {e}")
                return
            R.close()
            R.g = R.h = None
        R = None
        gc.collect()
        db0.commit()
        S.stop()
        S.start(d)
        db0.open("b", "r")
        db0.open("a", "r")
        for w, M, uu, gu, hu, n in done:
            R = Run.__new__(Run)
            R.d, R.ctx, R.n, R.M, R.uuids, R.snaps, R.var = d, ctx, n, M, uu, [], None
            R.g, R.h = db0.fetch(gu), db0.fetch(hu)
            try:
                R.check("")
            except Bad as e:
                ctx.fail({"words": ws}, e.args[0], f"word {w!r} after re-opening: {e.args[1]}")
                return
            except Exception as e:
                ctx.fail({"words": ws}, "an operation on weak references fails", f"word {w!r} after re-opening: {type(e).__name__}: {e}")
                return
            R.g = R.h = None
    finally:
        if R:
            R.close()
            R.g = R.h = R.var = None
        R = None
        S.stop()
        ctx.drop(d)


def words(tier):
    q = tier == "quick"
    res = []
    # every place, followed by every tail
    for p in PLACES:
        for t in itertools.product("DFcCV", repeat=3):
            res.append(p + "".join(t))
        for t in itertools.product(["D", "!D", "@D", "!F", "!n", "!o", "c", "C", "!" + p, "@" + p, "n" + p, "v"], repeat=2 if q else 3):
            res.append(p + "".join(t) + "DFC")
            res.append("V" + p + "".join(t))
        for t in ("DRF", "RDF", "DFR", "zDcF", "DzF", "zDFC", "TDcUcF", "TDUF", "1DcDF", "VDcvcF", "VDFcvF", "DcFjF", "zVDvcF", "DFcjcFc", "R!DDF", "cDcRFc", "ncDNcDcF"):
            res.append(p + t)
            res.append("c" + p + t)
    for p, r in itertools.product(PLACES, repeat=2):
        for t in ("DcF", "DF", "nDcF", "nNDcF", "n" + p + "NDcF", "n" + r + "NDcFC", "DcFR"):
            res.append(p + r + t)
    for t in itertools.product("wknDFxcW", repeat=4 if q else 5):
        res.append("w" + "".join(t))
    for t in itertools.product("pmDFocnl", repeat=3 if q else 4):
        res.append("m" + "".join(t))
    for t in itertools.product(ALL, repeat=2):
        res.append("".join(t))
        for p in "mwW" if q else PLACES:
            res.append(p + "".join(t) + "DcF")
    if not q:
        for p in PLACES:
            for t in itertools.product("DFcCRVnNz", repeat=4):
                if t.count("R") < 2:
                    res.append(p + "".join(t))
        for t in itertools.product(ALL, repeat=3):
            res.append("".join(t))
            res.append("m" + "".join(t) + "DcF")
    return list(dict.fromkeys(res))


def plan(tier):
    ws = words(tier)
    n = 120 if tier == "quick" else 250
    return [{"words": ws[i:i + n]} for i in range(0, len(ws), n)]


def run_task(t, ctx):
    run_words(t["words"], ctx)
