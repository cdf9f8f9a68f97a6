"""C05  A reader of a prefix that another process writes sees only complete commits, in order.

The writer's file operations for a history (two commits and a close, bodies enumerated from the operation alphabet) are
recorded at system-call level.  A real read-only session of the library then opens a copy of the file and the operations are
replayed into it one at a time; EVERY schedule of the reader within the bound is executed:
  every      refresh and read after every single operation
  pairs      refresh and read at every two points k1 < k2, and at the end
  lazy       refresh at k1 without reading anything, first read at k2 (the writer has moved on), then refresh and read
  torn       refresh and read while operation k is cut at any 4 KiB boundary (reader up to date / lagging since the start / opening)
  crash      the writer dies within a commit after operation k, another writer recovers the prefix and commits on: the reader
             stays open and refreshes at k - 1 / k and at every later point
  late open  the reader opens at k1, reads, refreshes and reads at the end
What is read (through fresh look-ups, through handles obtained before and kept, and through snapshots taken before) must be
exactly one committed state: of a commit begun, not older than the last one acknowledged before the refresh, never going back.
"""
import os
import dbzero as db0
import world as W, session as S, iolog
import c02

LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of schedules of reader refreshes against the single file operations of a recorded writer, executed by the real reader"
ASSUMPTIONS = ["the writer is represented by its recorded file operations; one operation is seen by the reader up to a 4 KiB boundary",
               "one writer, one reader"]
RULE = "a case = history x reader schedule; distinct = distinct (history, schedule)"
TASK_LIMIT_S = 200

SECOND = c02.SECOND


def plan(tier):
    tasks = []
    first = c02.FIRST if tier == "quick" else c02.FIRST + [[o] for o in W.OPS if [o] not in c02.FIRST]
    for i, a in enumerate(first):
        for j, b in enumerate(SECOND):
            if tier == "quick" and (i + j) % 4:
                continue
            tasks.append({"base": "full", "a": a, "b": b, "stride": 3 if tier == "quick" else 1})
    for i, (a, b) in enumerate(zip([["n=7"], ["l+big"], ["A.v="], ["d.big"]], SECOND)):
        tasks.append({"base": "long", "a": a, "b": b, "stride": 3 if tier == "quick" else 1})
    for a in (["A.new"], ["l+big"]):
        for b in SECOND[:4] if tier != "quick" else SECOND[:2]:
            tasks.append({"base": "empty", "a": a, "b": b, "stride": 3 if tier == "quick" else 1})
    # the writer dies within a commit, another one recovers the prefix and goes on
    for a in [["n=7"], ["l+big"], ["A.untag a", "A.v=", "d[new]="]][:2 if tier == "quick" else 3]:
        for b in ([["l+", "A.v="], ["n=3"]], [["d.big"], ["B.tag a", "s.add"], ["n=7"]]):
            tasks.append({"base": "full", "h": {"txns": [a], "close": []}, "then": b})
    # the known weakness, on one history
    tasks.append({"base": "full", "txns": [["n=7"]], "close": [], "sched": ["torn open", -1, 4096], "tag": c02.TORN_RECORD})
    return tasks


def steps(log):
    """→ [(operation, acked, started)]: only what changes the file, with the commits acknowledged / begun once it is done."""
    res, acked, started, record = [], 0, 0, False
    for e in log:
        if e[0] == "sync":
            record = True
        if e[0] == "mark":
            record = False
            started += e[1].startswith("begin")
            acked += e[1].startswith("end")
            if res:
                res[-1] = (res[-1][0], acked, max(started, res[-1][2]), res[-1][3]) if e[1].startswith("end") else res[-1]
        elif e[0] in ("w", "trunc"):
            res.append((e, acked, started, record))
    return res


class Reader:
    def __init__(self, ctx, case, base, st, want, held=True):
        self.ctx, self.case, self.st, self.want = ctx, case, st, want
        self.d = ctx.scratch()
        self.path = os.path.join(self.d, W.PX + ".db0")
        with open(self.path, "wb") as f:
            f.write(base)
        self.fd = os.open(self.path, os.O_RDWR)
        t = os.stat(self.path)
        self.times = (t.st_atime_ns, t.st_mtime_ns)
        self.pos = 0
        self.low = 0                    # the state seen last
        self.teared = False
        self.snaps = []
        self.root = None

    def start(self):
        S.start(self.d, W.PX, "r")
        self.low = max(self.low, self.acked())

    def acked(self):
        return self.st[self.pos - 1][1] if self.pos else 0

    def started(self):
        k = self.pos + 1 if self.teared else self.pos
        return self.st[k - 1][2] if k else 0

    def advance(self, k):
        while self.pos < k:
            e = self.st[self.pos][0]
            if e[0] == "trunc":
                os.ftruncate(self.fd, e[1])
            else:
                off = os.fstat(self.fd).st_size if e[1] < 0 else e[1]
                os.pwrite(self.fd, e[2], off)
            self.pos += 1
            self.teared = False
        # the background thread of the reader looks at the modification time: only the schedule decides on refreshes
        os.utime(self.path, ns=self.times)

    def fail(self, what, detail):
        self.ctx.fail(self.case, what, f"after file operation {self.pos} of {len(self.st)} ({self.acked()} commits acknowledged, {self.started()} begun): {detail}")
        return False

    def refresh(self):
        try:
            db0.refresh()
        except Exception as e:
            return self.fail("refreshing a reader fails", f"{type(e).__name__}: {e}")
        # while the writer is in the middle of writing one block the reader may be unable to take over what is acknowledged
        self.bounds = (self.low if self.torn() else max(self.low, self.acked()), self.started())
        return True

    def tear(self, cut):
        e = self.st[self.pos][0]
        os.pwrite(self.fd, e[2][:cut], e[1])
        os.utime(self.path, ns=self.times)
        self.teared = True

    def torn(self):
        if self.teared:
            return True
        if not 0 < self.pos < len(self.st):
            return False
        a, b = self.st[self.pos - 1][0], self.st[self.pos][0]
        return a[0] == b[0] == "w" and a[1] >= 0 and a[1] + len(a[2]) == b[1]

    def read(self, keep=True):
        """Reads everything; what is seen must lie within the bounds set by the last refresh."""
        lo, hi = self.bounds
        try:
            got = W.observe()
        except Exception as e:
            return self.fail("reading fails while the prefix is being written", f"{type(e).__name__}: {e}")
        ok = [i for i in range(lo, hi + 1) if got == self.want[i]]
        if not ok:
            old = [i for i in range(len(self.want)) if got == self.want[i]]
            return self.fail("a reader sees no committed state" if not old else "a reader sees the wrong commit",
                             f"expected commit {lo}..{hi}: " + (f"state of commit {old}" if old else " | ".join("vs commit %d: %s" % (i, W.diff(got, self.want[i])) for i in range(lo, hi + 1))))
        w = self.want[ok[0]]
        self.low, self.bounds = ok[0], (ok[0], ok[-1])
        if self.root is not None:
            try:
                got = W.observe(root=self.root)
                cols = [W.norm(self.hold[0]), W.norm(self.hold[1]), W.norm(self.hold[2]), sorted(self.hold[3])]
                a = self.hold[4]
                kid = None if a is None or "A" not in w["kids"] or not self.alive else [a.name, a.v, W.norm(a.items)]
            except Exception as e:
                return self.fail("a handle obtained before a refresh fails", f"{type(e).__name__}: {e}")
            if got != w:
                return self.fail("a handle obtained before a refresh shows another state", W.diff(got, w))
            exp = [w["lst"], w["dct"], w["st"], sorted(w["kids"])]
            if cols != exp:
                return self.fail("a collection handle obtained before a refresh shows another state", f"{cols} expected {exp}")
            self.alive = self.alive and "A" in w["kids"]
            if kid is not None and kid != [w["kids"]["A"][x] for x in ("name", "v", "items")]:
                return self.fail("an object handle obtained before a refresh shows another state", f"{kid} expected {w['kids']['A']}")
        elif keep:
            r = self.root = db0.fetch(W.Root)
            self.hold = [r.lst, r.dct, r.st, r.kids, r.kids["A"] if "A" in w["kids"] else None]
            self.alive = "A" in w["kids"]
        for s, i in self.snaps:
            try:
                got = W.observe(s)
            except Exception as e:
                return self.fail("a snapshot of a reader fails", f"{type(e).__name__}: {e}")
            if got != self.want[i]:
                return self.fail("a snapshot of a reader changed", f"taken at commit {i}: {W.diff(got, self.want[i])}")
        self.ctx.count("observations")
        return True

    def snap(self):
        self.snaps.append((db0.snapshot(), self.low))

    def close(self):
        for s, _ in self.snaps:
            s.close()
        self.snaps = self.root = self.hold = None
        S.stop()
        os.close(self.fd)
        self.ctx.drop(self.d)


def schedules(n, acks, stride, st):
    """n operations; acks = the counts after which a commit has been acknowledged.  A stride thins the pairs of points."""
    yield ("every",)
    for k in range(n):
        e = st[k][0]
        for cut in range(4096, len(e[2]) if e[0] == "w" and e[1] >= 0 else 0, 4096 if stride == 1 else 8192):
            yield ("torn", k, cut)
            yield ("torn late", k, cut)
            if not st[k][3]:            # see TORN_RECORD
                yield ("torn open", k, cut)
    yield ("every", "snap")
    for k in range(n + 1):
        yield ("open", k)
    for k1 in range(n + 1):
        for k2 in range(k1 + 1, n + 1):
            if (k1 + k2) % stride == 0 or k1 in acks or k2 in acks:
                yield ("pair" if (k1 + k2) % 2 else "lazy", k1, k2)
            if stride == 1:
                yield ("lazy" if (k1 + k2) % 2 else "pair", k1, k2)


def run_schedule(ctx, case, base, st, want, sched):
    ctx.begin(case)
    r = Reader(ctx, case, base, st, want)
    n = len(st)
    try:
        if sched[0] in ("open", "torn open"):
            r.advance(sched[1])
        if sched[0] == "torn open":
            r.tear(sched[2])
        try:
            r.start()
        except Exception as e:
            r.fail("a reader cannot open the prefix while it is being written", f"{type(e).__name__}: {e}")
            return
        r.bounds = (r.acked(), r.started())
        if sched[0] != "lazy" or sched[1] == 0:
            if not r.read():
                return
            r.snap()
        if sched[0] == "every":
            for k in range(1, n + 1):
                r.advance(k)
                if not (r.refresh() and r.read()):
                    return
                if len(sched) > 1 and k % 5 == 0 and len(r.snaps) < 6:
                    r.snap()
        elif sched[0] in ("open", "torn open"):
            pass
        elif sched[0] in ("torn", "torn late"):
            r.advance(sched[1])
            if sched[0] == "torn" and not (r.refresh() and r.read()):
                return
            r.tear(sched[2])
            if not (r.read() and r.refresh() and r.read()):
                return
            r.advance(sched[1] + 1)
            if not (r.refresh() and r.read()):
                return
        else:
            for k in sched[1:]:
                r.advance(k)
                if sched[0] == "lazy":
                    if k == sched[2] and not r.read():          # as of the refresh at k1
                        return
                    if not r.refresh():
                        return
                    if k == sched[2] and not r.read():
                        return
                else:
                    if not r.read() or not r.refresh() or not r.read():
                        return
        r.advance(n)
        if r.refresh() and r.read():
            if r.low != len(want) - 1:
                r.fail("a reader misses the last commit", f"sees commit {r.low} of {len(want) - 1}")
            ctx.count("schedules")
    finally:
        r.close()


def run_crash(t, ctx):
    """The writer dies after k file operations of one commit, another one recovers the prefix and goes on; the reader stays."""
    h = t["h"]
    kind = t["base"]
    base = c02.base_file(ctx, kind)
    d = ctx.scratch()
    try:
        st = steps(c02.record(ctx, d, kind, [h])[0])
        ks = [t["k"]] if "k" in t else range(1, len(st))
        contents, then = [], []
        for k in ks:
            buf = bytearray(base)
            for e in st[:k]:
                iolog.apply(buf, e[0])
            contents.append(bytes(buf))
            # the dead writer's commit counts once its record is complete
            done = st[k - 1][3] or st[k - 1][1] > 0
            then.append({"txns": t["then"], "close": [], "after": [o for o in h["txns"][0]] if done else []})
        d2 = os.path.join(d, "2")
        os.makedirs(d2)
        logs = c02.record(ctx, d2, kind, then, contents)
    finally:
        ctx.drop(d)
    for k, g, log in zip(ks, then, logs):
        m = W.new_model()
        W.model_only(m, c02.BASE_OPS[kind])
        want = [W.expect(m)]
        if g["after"]:
            W.model_only(m, g["after"])
            want.append(W.expect(m))
        first = len(want) - 1
        for x in g["txns"]:
            W.model_only(m, x)
            want.append(W.expect(m))
        whole = [(e, min(a, first), first if s else 0, rec) for e, a, s, rec in st[:k]]
        whole += [(e, a + first, s + first, rec) for e, a, s, rec in steps(log)]
        n = len(whole)
        ctx.count("crashes")
        for sched in [tuple(t["sched"])] if "sched" in t else \
                [("every",), ("open", k)] + [("pair", k1, k2) for k1 in (0, k - 1, k) for k2 in range(max(k, k1 + 1), n + 1)]:
            case = {"base": kind, "h": h, "then": t["then"], "k": k, "sched": list(sched)}
            ctx.state((repr(h), k, sched))
            run_schedule(ctx, case, base, whole, want, sched)


def run_task(t, ctx):
    if "h" in t:
        return run_crash(t, ctx)
    h = {"txns": t["txns"], "close": t["close"]} if "txns" in t else {"txns": [c02.body(t["a"]), t["b"]], "close": ["n=4", "s.add"]}
    d = ctx.scratch()
    try:
        log = c02.record(ctx, d, t["base"], [h])[0]
    finally:
        ctx.drop(d)
    base = c02.base_file(ctx, t["base"])
    want = [W.expect(m) for m in c02.models(t["base"], h)]
    st = steps(log)
    ctx.count("histories")
    ctx.count("file_operations", len(st))
    acks = {i + 1 for i in range(len(st)) if i + 1 == len(st) or st[i + 1][1] > st[i][1]}
    if t.get("tag"):                    # -1 stands for the commit record
        t["sched"][1] = max(i for i, e in enumerate(st) if e[3])
    for sched in [tuple(t["sched"])] if "sched" in t else schedules(len(st), acks, t["stride"], st):
        case = {"base": t["base"], "txns": h["txns"], "close": h["close"], "sched": list(sched), **({"tag": t["tag"]} if "tag" in t else {})}
        ctx.state((repr(h), sched))
        run_schedule(ctx, case, base, st, want, sched)
    ctx.sample({"history": h, "file_operations": len(st)})


def coverage(cov):
    st = cov.pop("distinct_states")
    cov.update(evaluations=cov.get("schedules", 0), distinct_nontrivial=st, rule=RULE)
    return cov
