"""C02  After a crash at any point the prefix opens at exactly the last completed commit (or the one being written).

Every history = a populated prefix, then two commits (bodies enumerated from the operation alphabet) and a close.  The writes
and syncs the real library issues for it are recorded at system-call level; then EVERY file content a crash can leave
is rebuilt (see lib/iolog.py), opened with the real library, compared with the reference model, and written to again.
"""
import json, os, shutil, sys
import dbzero as db0
import world as W, session as S, iolog

LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of crash points (prefix / torn / lost writes) of recorded write logs, recovered by the real code"
ASSUMPTIONS = ["sectors of 512 bytes are written atomically; a write acknowledged by fsync is durable",
               "one prefix, one writer; the tear/loss model is the one in lib/iolog.py"]
RULE = "a case = history x crash state; distinct = distinct (history, recovered file content)"
TASK_LIMIT_S = 200

FULL = ["A.new", "B.new", "A.tag a", "B.tag a", "B.tag b", "A.idx+", "l+big", "d[k]=", "d[new]=", "s.add", "tup=", "ba+", "A.ref", "l+nested"]
FIRST = [["n=7"], ["l+"], ["l+big"], ["d[new]="], ["d.big"], ["s.big"], ["A.tag b"], ["A.untag a"], ["B.idx+"], ["l.clear"], ["B.untag a", "A.v="],
         ["n=1"], ["A.idx-"], ["d.clear", "l.pop"], ["cancelled"]]
SECOND = [["n=3"], ["l+", "A.v="], ["s.add", "d[k]="], ["B.tag a", "B.idx+"], ["l+big"], ["A.untag a", "A.idx-", "A.drop"], ["d.big", "ba+"], ["dyn=", "tup="]]
TORN_RECORD = "torn write of the commit record (tail block of the DRAM changelog)"


def plan(tier):
    first = FIRST if tier == "quick" else FIRST + [[o] for o in W.OPS if [o] not in FIRST]
    tasks = [{"base": "full", "a": a, "second": SECOND} for a in first]
    # a history whose commits make the changelog streams move to their next block
    tasks += [{"base": base, "a": a, "second": [b]} for base in ("long", "long-dp") for a, b in zip([["n=7"], ["l+big"], ["A.v="], ["d.big"]], SECOND)]
    tasks += [{"base": "empty", "a": a, "second": SECOND[:4]} for a in (["A.new"], ["l+big"])]
    # the known weakness, on one history
    tasks += [{"base": "full", "txns": [["n=7"]], "close": [], "torn": "record", "tag": TORN_RECORD}]
    return tasks


def body(x):
    return [["cancel", "l+", "d[k]=", "A.v="], "n=2"] if x == ["cancelled"] else x


_base = {}
HEAD_DRAM_CHANGELOG, HEAD_DP_CHANGELOG, BLOCK = 20480, 36864, 16384
BASE_OPS = {"full": FULL, "long": FULL, "long-dp": FULL, "empty": []}


def base_file(ctx, kind):
    """A cleanly closed prefix holding FULL.  "long", "long-dp": just short of the DRAM / DP changelog's second block."""
    if kind in _base:
        return _base[kind]

    head = HEAD_DRAM_CHANGELOG if kind == "long" else HEAD_DP_CHANGELOG

    def make(n):
        d = ctx.scratch()
        path = os.path.join(d, W.PX + ".db0")
        S.start(d, W.PX)
        r, m = W.create(), W.new_model()
        W.run_ops(r, m, BASE_OPS[kind])
        db0.commit()
        k = 0
        while k < n:
            r.n = m["n"] - 1 - k % 2                # any change will do; FULL leaves n alone
            db0.commit()
            k += 1
            if n == 9999:
                with open(path, "rb") as f:
                    f.seek(head + BLOCK - 8)
                    if int.from_bytes(f.read(8), "little"):
                        break
        if n:
            r.n = m["n"]
        r = None
        S.stop()
        with open(path, "rb") as f:
            b = f.read()
        ctx.drop(d)
        return k, b

    _base[kind] = make(make(9999)[0] - 3)[1] if kind.startswith("long") else make(0)[1]
    return _base[kind]


def record(ctx, d, kind, hist, contents=None):
    """One write log per history; contents: the file each of them starts from (default: the base of that kind)."""
    hs = []
    contents = contents or [base_file(ctx, kind)] * len(hist)
    for i, h in enumerate(hist):
        base = contents[i]
        hd = os.path.join(d, "h%d" % i)
        os.makedirs(hd)
        with open(os.path.join(hd, W.PX + ".db0"), "wb") as f:
            f.write(base)
        hs.append({"dir": hd, "base_ops": BASE_OPS[kind] + h.get("after", []), "txns": h["txns"], "close": h["close"]})
    spec = {"mark": os.path.join(d, "mark"), "histories": hs}
    with open(os.path.join(d, "spec"), "w") as f:
        json.dump(spec, f)
    here = os.path.dirname(os.path.abspath(iolog.__file__))
    logs = iolog.record([sys.executable, os.path.join(here, "c02_child.py"), os.path.join(d, "spec")],
                        [os.path.join(h["dir"], W.PX + ".db0") for h in hs], spec["mark"], dict(os.environ), d)
    if len(logs) != len(hist):
        raise RuntimeError("recording incomplete")
    for base, h, log in zip(contents, hs, logs):       # the recording must reproduce the file the library left behind
        b = bytearray(base)
        for e in log:
            iolog.apply(b, e)
        if bytes(b) != open(os.path.join(h["dir"], W.PX + ".db0"), "rb").read():
            raise RuntimeError("the recorded writes do not reproduce the file")
        shutil.rmtree(h["dir"])
    return logs


def models(kind, h):
    m = W.new_model()
    W.model_only(m, BASE_OPS[kind])
    res = [W.clone(m)]
    for t in h["txns"] + ([h["close"]] if h.get("close") else []):
        for o in t:
            if isinstance(o, str):
                W.model_only(m, [o])
            elif o[0] == "atomic":
                W.model_only(m, o[1:])
        res.append(W.clone(m))
    return res


def run_histories(kind, hist, ctx, torn=True, only=None, tag=None):
    d = ctx.scratch()
    try:
        logs = record(ctx, d, kind, hist)
        for h, log in zip(hist, logs):
            ms = models(kind, h)
            want = [W.expect(m) for m in ms]
            ctx.count("histories")
            ctx.count("syncs", sum(e[0] == "sync" for e in log))
            for label, content, acked, started in iolog.crash_states(base_file(ctx, kind), log, torn=torn, lost=True):
                if only and label != only:
                    continue
                case = {"base": kind, "txns": h["txns"], "close": h["close"], "torn": torn, "crash": label}
                if tag:
                    if not label.startswith("write"):
                        continue
                    case["tag"] = tag
                recover(ctx, case, content, acked, started, ms, want)
    finally:
        ctx.drop(d)


def recover(ctx, case, content, acked, started, ms, want):
    ctx.begin(case)
    ctx.count("crash_states")
    ctx.state((repr(case['txns']), case['close'], hash(content)))
    d = ctx.scratch()
    with open(os.path.join(d, W.PX + ".db0"), "wb") as f:
        f.write(content)
    at = f"crash at '{case['crash']}' ({acked} commits acknowledged, {started} begun) of {case['txns']} + close {case['close']}"
    try:
        k = None
        for mode in ("r", "rw"):
            try:
                S.start(d, W.PX, mode)
                got = W.observe()
            except Exception as e:
                ctx.fail(case, f"the prefix does not open after a crash ({mode})", f"{at}: {type(e).__name__}: {e}")
                return
            ok = [i for i in range(acked, started + 1) if got == want[i]]
            if not ok:
                old = [i for i in range(len(want)) if got == want[i]]
                ctx.fail(case, "state after a crash is no acknowledged commit" if not old else "a commit was lost or invented by a crash",
                         f"{at}, opened {mode}: " + (f"state of commit {old}" if old else " | ".join("vs commit %d: %s" % (i, W.diff(got, want[i])) for i in sorted({acked, started}))))
                return
            if k is not None and k not in ok:
                ctx.fail(case, "read-only and read-write opening recover different states", f"{at}: {k} {ok}")
                return
            k = ok[0]
            if mode == "r":
                S.stop()
        # recovered: the prefix must work on
        m = W.clone(ms[k])
        r = db0.fetch(W.Root)
        W.run_ops(r, m, ["l+", "n=7", "d[new]=", "s.add", "A.v=", "B.tag a"])
        for more in (["d.big"], ["B.tag b", "s.big", "n=1"], ["l+big", "dyn="]):    # enough to need new blocks in every stream
            db0.commit()
            W.run_ops(r, m, more)
        r = None
        S.stop()
        S.start(d, W.PX, "r")
        x = W.diff(W.observe(), W.expect(m))
        if x:
            ctx.fail(case, "the recovered prefix does not keep new commits", f"{at}, then written and reopened: {x}")
            return
        ctx.count("recoveries")
    finally:
        r = None
        S.stop()
        ctx.drop(d)


def run_task(t, ctx):
    if "txns" in t:
        return run_histories(t["base"], [{"txns": t["txns"], "close": t["close"]}], ctx, t["torn"], t.get("crash"), t.get("tag"))
    hist = [{"txns": [body(t["a"]), b], "close": ["n=4", "s.add"] if i % 2 else []} for i, b in enumerate(t["second"])]
    run_histories(t["base"], hist, ctx)
    ctx.sample({"history": hist[-1]})


def coverage(cov):
    st = cov.pop("distinct_states")
    cov.update(evaluations=cov.get("crash_states", 0), distinct_nontrivial=st, rule=RULE)
    return cov
