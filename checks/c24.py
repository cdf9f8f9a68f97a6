"""C24  State numbers and change notifications reflect exactly the commits that happened.

Bounded space: every word up to the depth over {changes of two prefixes of every kind, plain, in atomic blocks that complete or are
cancelled and in (nested) locked sections; commits of one / all prefixes; reads; waiting for the current, the next and a later state;
snapshots; re-opening}, and of locked sections that overlap in every order while prefixes are changed, closed and re-opened.  The reference counts the commits that changed something: after every letter both numbers of both prefixes,
every pending wait and what each locked section reported are compared; at the end every state number of the word is opened and
every pair of states compared through select_new / select_modified / select_deleted.  With a real writer process next to the
reader: every word over {commit, commit without change, wait for a reached / the next / a later state, refresh}.
"""
import asyncio, itertools, json, os, subprocess, sys, threading, time
import dbzero as db0
import session as S

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of change/commit/wait sequences on the real library (and on a real writer/reader pair) vs a counter model"
ASSUMPTIONS = ["autocommit off in the writer"]


@db0.memo(id="c24.O")
class O:
    def __init__(self, i, prefix):
        db0.set_prefix(self, prefix)
        self.i = i
        self.v = 0
        self.s = "s"
        self.x = None
        self.l = [i]
        self.d = {"k": i}
        self.t = {i}
        self.tu = (i, 1)
        self.ix = db0.index()
        self.bx = db0.bytearray(b"a")
        self.ws = db0.weak_set([])


@db0.memo(id="c24.Late")
class Late:
    def __init__(self, prefix):
        db0.set_prefix(self, prefix)
        self.n = 1


# every kind of change; n is a number not used before
CH = {
    "v": lambda p, n: setattr(p.o[0], "v", n),
    "s": lambda p, n: setattr(p.o[0], "s", f"text {n}"),
    "x": lambda p, n: setattr(p.o[0], "x", n if n % 2 else f"t{n}"),
    "attr": lambda p, n: setattr(p.o[1], f"a{n}", n),
    "append": lambda p, n: p.o[0].l.append(n),
    "set item": lambda p, n: p.o[1].l.__setitem__(0, n),
    "pop": lambda p, n: (p.o[0].l.append(1), p.o[0].l.pop(0), None)[-1],
    "d set": lambda p, n: p.o[0].d.__setitem__("k", n),
    "d new": lambda p, n: p.o[0].d.__setitem__(n, n),
    "d clear": lambda p, n: (p.o[0].d.__setitem__(n, 1), p.o[0].d.clear(), p.o[0].d.__setitem__("c", n), None)[-1],
    "t add": lambda p, n: p.o[0].t.add(n),
    "t swap": lambda p, n: (p.o[0].t.add(-n), p.o[0].t.discard(-n), p.o[0].t.add(f"s{n}"), None)[-1],
    "tuple": lambda p, n: setattr(p.o[0], "tu", (n, n)),
    "new list": lambda p, n: setattr(p.o[0], "l", [n]),
    "ix": lambda p, n: p.o[0].ix.add(n, p.o[1]),
    "bx": lambda p, n: p.o[0].bx.append(n % 250),
    "ws": lambda p, n: p.fresh(n, lambda o: p.o[0].ws.add(o)),
    "tag": lambda p, n: db0.tags(p.o[n % 2]).add(f"n{n}"),
    "mark": lambda p, n: p.mark(n),
    "object": lambda p, n: p.fresh(n, lambda o: p.keep.append(o)),
    "delete": lambda p, n: p.fresh(n, lambda o: None),
    "late class": lambda p, n: p.keep.append(Late(p.px)),
}


class Prefix:
    """One prefix: live handles, and the reference {object number: (v, x, marked)}."""
    def __init__(self, px):
        self.px = px
        self.o = [O(i, px) for i in range(3)]
        self.home = O(100, px)
        self.keep = self.home.l
        for o in self.o:
            self.keep.append(o)
        db0.tags(*self.o).add("t")
        db0.tags(self.home).add("m")            # keeps the tag known: see run_gone_tag
        db0.tags(self.o[1]).add("m")
        self.ref = {0: 0, 1: 0, 2: 0}
        self.marked = {1}
        self.uid = [db0.uuid(x) for x in self.o]
        self.huid = db0.uuid(self.home)
        self.fin, self.dirty, self.maybe = None, False, False
        self.hist = {}

    def drop(self):
        self.o = self.home = self.keep = None

    def load(self):
        self.o = [db0.fetch(u) for u in self.uid]
        self.home = db0.fetch(self.huid)
        self.keep = self.home.l

    def fresh(self, n, f):
        o = O(n, self.px)
        f(o)

    def mark(self, n):
        o = self.o[n % 3]
        if n % 3 in self.marked:
            db0.tags(o).remove("m")
            self.marked = self.marked - {n % 3}
        else:
            db0.tags(o).add("m")
            self.marked = self.marked | {n % 3}

    def change(self, kind, n):
        CH[kind](self, n)
        if kind == "v":
            self.ref = {**self.ref, 0: n}
        self.dirty = True

    def numbers(self):
        return db0.get_state_num(self.px), db0.get_state_num(self.px, finalized=True)

    def committed(self):
        if self.maybe and not self.dirty and self.numbers()[1] == self.fin + 1:    # a cancelled block may leave something to write
            self.dirty = True
        if self.dirty:
            self.fin += 1
            self.hist[self.fin] = (self.ref, self.marked, self.view(db0))
        self.dirty = self.maybe = False

    def view(self, s):
        o = [s.fetch(u) for u in self.uid]
        return (tuple((x.v, x.s, x.x, tuple(x.l), repr(sorted((str(k), v) for k, v in x.d.items())), repr(sorted(map(str, x.t))), tuple(x.tu),
                       len(x.ix), bytes(list(x.bx)), len(x.l)) for x in o), len(s.fetch(self.huid).l), tuple(sorted(x.i for x in s.find(O, "t", prefix=self.px))),
                tuple(sorted(x.i for x in s.find(O, "m", prefix=self.px))))


class World:
    def __init__(self, d):
        self.d = d
        S.start(d)
        db0.open("b", "rw")
        db0.open("a", "rw")
        self.p = {"a": Prefix("a"), "b": Prefix("b")}
        db0.commit()
        for p in self.p.values():
            p.dirty = False
            p.fin = db0.get_state_num(p.px, finalized=True)
            p.hist[p.fin] = (p.ref, p.marked, p.view(db0))
        self.n = 0
        self.loop = asyncio.new_event_loop()
        self.waits = []                           # (prefix, state, future)

    def next(self):
        self.n += 1
        return self.n

    def tick(self):
        async def t():
            for _ in range(3):
                await asyncio.sleep(0)
        self.loop.run_until_complete(t())

    def wait(self, px, k):
        async def t():
            return db0.async_wait(px, max(1, self.p[px].fin + k))
        n = max(1, self.p[px].fin + k)
        self.waits.append((px, n, self.loop.run_until_complete(t())))

    def reopen(self):
        self.waits = []
        for p in self.p.values():
            p.drop()
        S.stop()
        S.start(self.d)
        db0.open("b", "rw")
        db0.open("a", "rw")
        for p in self.p.values():
            p.load()
            p.committed()
            p.maybe = True                        # class statistics may be written late

    def close(self):
        self.waits = []
        for p in self.p.values():
            p.drop()
        S.stop()
        self.loop.close()


def save(p):
    return p.ref, p.marked, p.dirty


def cancelled(w, f):
    old = {k: save(p) for k, p in w.p.items()}
    with db0.atomic() as at:
        f()
        at.cancel()
    for k, p in w.p.items():
        p.maybe |= p.dirty
        p.ref, p.marked, p.dirty = old[k]


def atomic(w, f):
    with db0.atomic():
        f()


def locked(w, f, want):
    """Runs f in a locked section; `want` prefixes must be reported with the state number their changes are committed under."""
    with db0.locked() as lock:
        f()
    got = sorted(map(tuple, lock.get_mutation_log()))
    exp = sorted((px, w.p[px].fin + 1) for px in want)
    if got != exp:
        return "a locked section reports other changes than were made in it", f"{got} expected {exp}"


def nested(w, f, g, h):
    """f in the outer section, g in the inner one, h in the outer again; each is a list of prefixes to change."""
    def do(x):
        for px in x:
            w.p[px].change("v", w.next())
    with db0.locked() as l1:
        do(f)
        with db0.locked() as l2:
            do(g)
        do(h)
    inner, outer = sorted(map(tuple, l2.get_mutation_log())), sorted(map(tuple, l1.get_mutation_log()))
    num = lambda x: sorted((px, w.p[px].fin + 1) for px in set(x))
    if inner != num(g) or outer != num(f + g + h):
        return "nested locked sections report other changes than were made in them", f"inner {inner} expected {num(g)}, outer {outer} expected {num(f + g + h)}"


def act(w, c):
    """One letter; returns (sig, what) of a failure."""
    a, b = w.p["a"], w.p["b"]
    if c in "ab":
        w.p[c].change("v", w.next())
    elif c == "m":
        a.change("mark", w.next())
    elif c == "C":
        db0.commit()
        a.committed()
        b.committed()
    elif c in "AB":
        db0.commit(c.lower())
        w.p[c.lower()].committed()
    elif c == "@":
        atomic(w, lambda: a.change("append", w.next()))
    elif c == "X":
        cancelled(w, lambda: a.change("append", w.next()))
    elif c == "e":
        atomic(w, lambda: None)
    elif c == "L":
        return locked(w, lambda: a.change("d new", w.next()), ["a"])
    elif c == "l":
        return locked(w, lambda: list(db0.find(O)) and None, [])
    elif c == "B2":
        return locked(w, lambda: (a.change("v", w.next()), b.change("v", w.next())), ["a", "b"])
    elif c == "r":
        a.view(db0)
        list(db0.find("nothing"))
        db0.refresh()
    elif c == "s":
        s = db0.snapshot()
        for p in (a, b):
            if s.get_state_num(p.px) != p.fin:
                return "a snapshot is taken at another state than the last commit", f"{s.get_state_num(p.px)} expected {p.fin}"
        s.close()
    elif c in "012":
        w.wait("a", int(c))
    elif c == "3":
        w.wait("b", 1)
    elif c == "R":
        w.reopen()
    elif c == "k":
        db0.clear_cache()
    elif c.startswith("kind "):
        a.change(c[5:], w.next())
    elif c.startswith("atomic in locked "):
        return locked(w, lambda: atomic(w, lambda: a.change(c[17:], w.next())), ["a"])
    elif c.startswith("atomic "):
        atomic(w, lambda: a.change(c[7:], w.next()))
    elif c.startswith("cancel "):
        cancelled(w, lambda: a.change(c[7:], w.next()))
    elif c.startswith("locked "):
        return locked(w, lambda: a.change(c[7:], w.next()), ["a"])
    elif c.startswith("nested "):
        return nested(w, *(list(x.strip("-")) for x in c[7:].split("|")))
    else:
        raise ValueError(c)


LETTERS = "abmCABX@eLlrs0123Rk"
CORE = "abCA@X12LR"
HEADS = ["C", "kind v", "0", "12"]


def words(tier):
    res = []
    for k in CH:
        for m in ("kind ", "atomic ", "locked ", "atomic in locked ", "cancel "):
            res.append([m + k, "C", "C", m + k, "A", "a", m + k, "C"])
            res.append(["1", m + k, "B", "A", "s", m + k, "R", "C", "kind " + k, "C"])
            res.append(["locked v", m + k, "C", "kind " + k, "cancel " + k, "C"])
    parts = ["-", "a", "b", "ab"]
    for f, g, h in itertools.product(parts, repeat=3):
        res.append([f"nested {f}|{g}|{h}", "C", f"nested {g}|{h}|{f}", "A", "L", "B"])
    n = 3 if tier == "quick" else 4
    for w in itertools.product(LETTERS, repeat=n):
        res.append(list(w) + ["C"])
    for w in itertools.product(CORE, repeat=n + 1):
        res.append(list(w) + ["C"])
    return res


def plan(tier):
    n = len(words(tier))
    size = 400
    tasks = [{"tag": "C24-gone-tag"}] + [{"tier": tier, "from": i, "to": min(n, i + size)} for i in range(0, n, size)]
    k = 3 if tier == "quick" else 5
    ws = section_words(6 if tier == "quick" else 7)
    tasks += [{"section_words": ws[i:i + 400]} for i in range(0, len(ws), 400)]
    for h in itertools.product(READER, repeat=2):
        tasks.append({"reader": "".join(h), "n": k})
    return tasks


def check_numbers(w, ctx, case, where):
    for p in w.p.values():
        got = p.numbers()
        if got != (p.fin + 1, p.fin):
            ctx.fail(case, "a state number does not reflect the commits", f"{where}: prefix {p.px!r}: (pending, finalized) {got} expected {(p.fin + 1, p.fin)}")
            return False
    if w.waits:
        w.tick()
        for px, n, f in w.waits:
            if f.done() != (w.p[px].fin >= n):
                ctx.fail(case, "a wait does not end when its state is reached" if not f.done() else "a wait ends before its state is reached",
                         f"{where}: prefix {px!r}: waiting for {n}, state {w.p[px].fin}, done: {f.done()}")
                return False
            if f.done():
                f.result()
    return True


def check_word(w, base, ctx, case, word):
    """Every state number since `base` opened, every pair compared."""
    snaps = {}
    p = w.p["a"]
    try:
        lo = {q.px: base[q.px] for q in w.p.values()}
        for q in w.p.values():
            for n in range(lo[q.px], q.fin + 1):
                s = db0.snapshot({q.px: n})
                if q is p:
                    snaps[n] = s
                got = q.view(s)
                ctx.count("snapshot_reads")
                if got != q.hist[n][2] or s.get_state_num(q.px) != n:
                    ctx.fail(case, "a state number shows other data than was committed under it", f"{word}: state {n} of {q.px!r}: {got} expected {q.hist[n][2]}")
                    return False
                s = None
        for n1, n2 in itertools.combinations(sorted(snaps), 2):
            s1, s2 = snaps[n1], snaps[n2]
            (r1, m1, _), (r2, m2, _) = p.hist[n1], p.hist[n2]
            new = sorted(x.i for x in db0.select_new(db0.find(O, "m", prefix="a"), s1, s2))
            gone = sorted(x.i for x in db0.select_deleted(db0.find(O, "m", prefix="a"), s1, s2))
            q = lambda: db0.find(O, "t", prefix="a")
            mod = sorted((x.i, x.v, y.v) for x, y in db0.select_modified(q(), s1, s2, lambda x, y: x.v == y.v))
            cand = {x.i for x, y in db0.select_modified(q(), s1, s2)}
            ctx.count("pairs")
            want = sorted(m2 - m1), sorted(m1 - m2), sorted((i, r1[i], r2[i]) for i in r1 if r1[i] != r2[i])
            if (new, gone, mod) != want or not {i for i, _, _ in mod} <= cand <= set(r1):
                ctx.fail(case, "comparing two states finds other changes than were made", f"{word}: states {n1}..{n2}: new, deleted, modified {(new, gone, mod)} expected {want}, candidates {cand}")
                return False
    finally:
        s = None
        for s in snaps.values():
            s.close()
    return True


def run_words(ws, ctx):
    d = ctx.scratch()
    w = None
    try:
        w = World(d)
        done = []
        for word in ws:
            done = done[-4:] + [word]
            case = {"words": list(done)}
            ctx.begin(case)
            base = {p.px: p.fin for p in w.p.values()}
            for i, c in enumerate(word):
                ctx.count("ops")
                f = act(w, c)
                if f:
                    ctx.fail(case, f[0], f"{word} at {i} ({c}): {f[1]}")
                    return
                if not check_numbers(w, ctx, case, f"{word} at {i} ({c})"):
                    return
            ctx.state(tuple(word))
            ctx.count("histories")
            act(w, "C")
            if not check_word(w, base, ctx, case, word):
                return
            w.waits = [x for x in w.waits if x[1] > w.p[x[0]].fin][:6]
            for p in w.p.values():
                if len(p.hist) > 60:
                    p.hist = {p.fin: p.hist[p.fin]}
                if len(p.home.l) > 40:
                    p.home.l = p.o
                    p.keep = p.home.l
                    p.o[0].l, p.o[0].d, p.o[0].t = [1], {"k": 1}, {1}
                    p.dirty = True
                    act(w, "C")
    finally:
        if w:
            w.close()
        w = None
        ctx.drop(d)


def run_gone_tag(case, ctx):
    """Comparing states by a tag which nothing carries at present."""
    d = ctx.scratch()
    ctx.begin(case)
    ctx.count("histories")
    S.start(d)
    o = s1 = s2 = None
    try:
        db0.open("a", "rw")
        o = [O(i, "a") for i in range(2)]
        db0.tags(*o).add("t")
        db0.tags(o[0]).add("m")
        db0.commit()
        s1 = db0.snapshot()
        db0.tags(o[0]).remove("m")
        db0.commit()
        s2 = db0.snapshot()
        got = [x.i for x in db0.select_deleted(db0.find(O, "m"), s1, s2)]
        if got != [0]:
            ctx.fail(case, "comparing two states by a tag nothing carries now finds nothing", f"select_deleted: {got} expected [0]")
    finally:
        o = s1 = s2 = None
        S.stop()
        ctx.drop(d)


# ---- locked sections that begin and end in any order, prefixes closed and opened inside them -------------------------------
def section_words(n):
    """( opens a section, 1 2 3 close the first / second / third of the open ones; a b change a prefix, x closes b, o opens it again"""
    def rec(w, k, b, left):
        yield w
        if left:
            if k < 3:
                yield from rec(w + "(", k + 1, b, left - 1)
            for i in range(k):
                yield from rec(w + "123"[i], k - 1, b, left - 1)
            yield from rec(w + "a", k, b, left - 1)
            if b:
                yield from rec(w + "b", k, b, left - 1)
                yield from rec(w + "x", k, False, left - 1)
            else:
                yield from rec(w + "o", k, True, left - 1)
    return [w for w in rec("(", 1, True, n) if len(w) == n + 1]


@db0.memo(id="c24.V")
class V:
    def __init__(self, prefix):
        db0.set_prefix(self, prefix)
        self.v = 0


def run_sections(ws, ctx):
    d = ctx.scratch()
    S.start(d)
    objs, secs, word = {}, [], ""
    try:
        for px in "ab":
            db0.open(px, "rw")
        keep = {px: V(px) for px in "ab"}
        for o in keep.values():
            db0.tags(o).add("v")
        uid = {px: db0.uuid(o) for px, o in keep.items()}
        objs, keep, o = keep, None, None
        db0.commit()
        db0.open("a", "rw")
        n = 0
        for word in ws:
            case = {"section_words": [word]}
            ctx.begin(case)
            secs, pend = [], {}
            fin = {px: db0.get_state_num(px, finalized=True) for px in "ab"}
            for i, c in enumerate(word + "L"):
                ctx.count("ops")
                todo = []
                if c == "(":
                    l = db0.locked()
                    secs.append(((l, l.__enter__()), {}))
                elif c in "123":
                    todo = [secs.pop(int(c) - 1)]
                elif c in "ab":
                    n += 1
                    objs[c].v = n
                    pend[c] = True
                    for _, m in secs:
                        m[c] = fin[c] + 1
                elif c == "x":
                    objs.pop("b")
                    db0.close("b")
                    if pend.pop("b", None):
                        fin["b"] += 1
                elif c == "o":
                    db0.open("b", "rw")
                    objs["b"] = db0.fetch(uid["b"])
                    db0.open("a", "rw")
                else:
                    while secs:
                        todo.append(secs.pop())
                for (l, k), m in todo:
                    l.__exit__(None, None, None)
                    got = sorted(map(tuple, k.get_mutation_log()))
                    if got != sorted(m.items()):
                        ctx.fail(case, "overlapping locked sections report other changes than were made in them", f"{word!r} at {i}: {got} expected {sorted(m.items())}")
                        return
            if "b" not in objs:
                db0.open("b", "rw")
                objs["b"] = db0.fetch(uid["b"])
                db0.open("a", "rw")
            db0.commit()
            for px in "ab":
                f = db0.get_state_num(px, finalized=True)
                if f != fin[px] + bool(pend.get(px)):
                    ctx.fail(case, "a state number does not reflect the commits", f"{word!r}: prefix {px!r}: {f} expected {fin[px] + bool(pend.get(px))}")
                    return
            ctx.state(("sections", word))
            ctx.count("histories")
    finally:
        for (l, _), _ in secs:
            l.__exit__(None, None, None)
        objs = secs = None
        S.stop()
        ctx.drop(d)


# ---- a real writer process -------------------------------------------------------------------------------------------------
# c: the writer commits a change;  e: commits without one;  0 / 1 / 2: wait for the current / next / a later state;  b: the writer commits
# while the reader waits for the next state;  r: refresh and read;  n: the reader looks at its state number
READER = "ce01br"
WRITER = """
import sys; sys.path[:0] = %r
import dbzero as db0, session as S, c24, time
S.start(sys.argv[1]); db0.open("a", "rw")
p = c24.Prefix("a"); db0.commit()
n = 0
print(db0.get_state_num("a", finalized=True), db0.uuid(p.o[0]), flush=True)
for l in sys.stdin:
    c = l.strip()
    if c == "c" or c == "b":
        if c == "b": time.sleep(0.03)
        n += 1
        p.o[0].v = n; p.o[0].l.append(n)
    db0.commit()
    print(db0.get_state_num("a", finalized=True), n, flush=True)
p.drop(); S.stop()
"""


def run_reader(ws, ctx):
    d = ctx.scratch()
    proc = None
    o = None
    try:
        proc = subprocess.Popen([sys.executable, "-c", WRITER % sys.path[:4], d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        n0, uid = proc.stdout.readline().split()
        last, val = int(n0), 0
        vals = {last: 0}
        S.start(d)
        db0.open("a", "r")
        o = db0.fetch(uid)

        def tell(c):
            proc.stdin.write(c + "\n")
            proc.stdin.flush()

        def heard():
            nonlocal last, val
            s, v = map(int, proc.stdout.readline().split())
            if s != last + (v != val):
                return f"writer's state {s} after {last}"
            last, val = s, v
            vals[s] = v

        for word in ws:
            case = {"reader_words": [word]}
            ctx.begin(case)
            for i, c in enumerate(word + "1" if False else word):
                ctx.count("ops")
                where = f"{word!r} at {i}"
                bad = None
                if c in "ce":
                    tell(c)
                    bad = heard()
                elif c == "0":
                    if not db0.wait("a", last, 20000):
                        bad = f"wait for the committed state {last} timed out"
                elif c == "1":
                    if db0.wait("a", last + 1, 40):
                        bad = f"wait for state {last + 1} ended at {last}"
                elif c == "b":
                    tell("b")
                    r = db0.wait("a", last + 1, 20000)
                    bad = heard()
                    if not r:
                        bad = "a wait missed the commit made while waiting"
                elif c == "r":
                    db0.refresh()
                if not bad:
                    st = db0.get_state_num("a")
                    if st not in vals or c in "0b" and st != last:
                        bad = f"the reader is at state {st}, the writer at {last}"
                    else:
                        s = db0.snapshot({"a": st})
                        x = s.fetch(uid)
                        got = o.v, list(o.l), x.v, list(x.l)
                        x = None
                        s.close()
                        st2 = db0.get_state_num("a")
                        exp = vals[st], list(range(vals[st] + 1)), vals[st], list(range(vals[st] + 1))
                        exp2 = (vals.get(st2), list(range(vals.get(st2, 0) + 1))) + exp[2:]
                        if got != exp and got != exp2 and st == st2:
                            bad = f"the reader at state {st} reads {got} expected {exp}"
                if bad:
                    ctx.fail(case, "a reader's wait or state number does not follow the writer's commits", f"{where}: {bad}")
                    return
            ctx.state(("reader", word))
            ctx.count("histories")
        tell("c")
        heard()
    finally:
        o = None
        S.stop()
        if proc:
            proc.stdin.close()
            try:
                proc.wait(20)
            except subprocess.TimeoutExpired:
                proc.kill()
            proc.stdout.close()
        ctx.drop(d)


def run_task(t, ctx):
    if "words" in t:
        return run_words(t["words"], ctx)
    if t.get("tag") == "C24-gone-tag":
        return run_gone_tag(t, ctx)
    if "section_words" in t:
        return run_sections(t["section_words"], ctx)
    if "reader_words" in t:
        return run_reader(t["reader_words"], ctx)
    if "reader" in t:
        ws = [t["reader"] + "".join(x) for x in itertools.product(READER, repeat=t["n"] - 2)]
        return run_reader(ws, ctx)
    ws = words(t["tier"])[t["from"]:t["to"]]
    for i in range(0, len(ws), 100):
        run_words(ws[i:i + 100], ctx)
    ctx.sample({"words": [ws[-1]]})


def coverage(cov):
    cov.update(states=cov.pop("distinct_states"), transitions=cov.get("ops", 0), traces_validated_against_impl=cov.get("histories", 0))
    return cov
