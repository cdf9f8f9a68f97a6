"""C06  Lists, tuples and byte arrays behave like Python's, for every sequence of operations they support.

Bounded space: every sequence of operations up to the depth over the alphabets below from every start value (empty, small, sizes
around the block boundaries of the storage), with every barrier pattern between the operations (none, commit, commit + cache
clearing, re-open, fresh handles).  Oracle: the same calls on Python's own types.
"""
import itertools
import dbzero as db0
import coll
import session as S
from coll import Kind

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of operation sequences on the real collections, with Python's own types as the reference model"
ASSUMPTIONS = ["single process, single thread", "operations dbzero documents as unsupported (list insert / sort / slice assignment, slices of tuples and byte arrays) are outside the alphabet"]


def si(i, v):
    def f(x, E):
        x[i] = v(E) if callable(v) else v
    return f


def di(i):
    def f(x, E):
        del x[i]
    return f


LIST_OPS = {
    "append 5": lambda x, E: x.append(5),
    "append 'a'": lambda x, E: x.append("a"),
    "append E0": lambda x, E: x.append(E[0]),
    "append [1,[E1]]": lambda x, E: x.append([1, [E[1]]]),
    "append (1,E0)": lambda x, E: x.append((1, E[0])),
    "append {'k':E1}": lambda x, E: x.append({"k": E[1]}),
    "append None": lambda x, E: x.append(None),
    "append 2**63": lambda x, E: x.append(2 ** 63) if type(x) is not list else int("x"),
    "pop": lambda x, E: x.pop(),
    "pop 0": lambda x, E: x.pop(0),
    "pop -2": lambda x, E: x.pop(-2),
    "pop 1": lambda x, E: x.pop(1),
    "pop 999": lambda x, E: x.pop(999999),
    "x[0]=7": si(0, 7),
    "x[-1]=E1": si(-1, lambda E: E[1]),
    "x[1]='bb'": si(1, "bb"),
    "x[999]=1": si(999999, 1),
    "remove 5": lambda x, E: x.remove(5),
    "remove 'a'": lambda x, E: x.remove("a"),
    "remove E0": lambda x, E: x.remove(E[0]),
    "extend [1,E0]": lambda x, E: x.extend([1, E[0], "a"]),
    "extend self": lambda x, E: x.extend(x),
    "extend iter": lambda x, E: x.extend(iter((5, 6))),
    "extend []": lambda x, E: x.extend([]),
    "clear": lambda x, E: x.clear(),
    "del x[0]": di(0),
    "del x[-1]": di(-1),
    "del x[999]": di(999999),
}
LIST_READ = {
    "len": lambda x, E: len(x),
    "iterate": lambda x, E: [e for e in x],
    "x[0]": lambda x, E: x[0],
    "x[-1]": lambda x, E: x[-1],
    "x[-2]": lambda x, E: x[-2],
    "x[1]": lambda x, E: x[1],
    "x[999]": lambda x, E: x[999999],
    "x[-999]": lambda x, E: x[-999999],
    "x[1:3]": lambda x, E: x[1:3],
    "x[::-1]": lambda x, E: x[::-1],
    "x[::2]": lambda x, E: x[::2],
    "x[-2:]": lambda x, E: x[-2:],
    "x[:-1]": lambda x, E: x[:-1],
    "x[5:2]": lambda x, E: x[5:2],
    "x[-1:0:-2]": lambda x, E: x[-1:0:-2],
    "count 5": lambda x, E: x.count(5),
    "count 'a'": lambda x, E: x.count("a"),
    "count E0": lambda x, E: x.count(E[0]),
    "index 5": lambda x, E: x.index(5),
    "index E0": lambda x, E: x.index(E[0]),
    "index 'zz'": lambda x, E: x.index("zz"),
    "index None": lambda x, E: x.index(None),
    "5 in x": lambda x, E: 5 in x,
    "E1 in x": lambda x, E: E[1] in x,
    "'zz' in x": lambda x, E: "zz" in x,
    "copy": lambda x, E: x.copy(),
    "copy ==": lambda x, E: x.copy() == x,
    "x == list": lambda x, E: x == list(x),
    "x == list+1": lambda x, E: x == list(x) + [1],
    "x != list[:-1]": lambda x, E: x != list(x)[:-1],
    "x == None": lambda x, E: x == None,
    "x + [1]": lambda x, E: x + [1, E[0]],
    "x + x": lambda x, E: x + x,
    "x * 2": lambda x, E: x * 2,
    "x * 0": lambda x, E: x * 0,
    "x * -1": lambda x, E: x * -1,
    "x + 5": lambda x, E: x + 5,
}
SIZES = [255, 256, 257, 511, 512, 513]


def mix(n):
    def f(E):
        return [[i, "s%d" % i, None, E[i % 3], i / 2][i % 5] for i in range(n)]
    return f


LIST = Kind("list", lambda v: db0.list(v),
            dict({"[]": lambda E: [], "[5]": lambda E: [5], "5": mix(5), "[5,E0,'a',5]": lambda E: [5, E[0], "a", 5, (1, 2), E[0]]},
                 **{str(n): (lambda n: lambda E: list(range(n)))(n) for n in SIZES}, **{"mix300": mix(300)}),
            LIST_OPS, LIST_READ)

# ------------------------------------------------------------------------------------------------------------------- bytes
BA_OPS = {
    "append 0": lambda x, E: x.append(0),
    "append 255": lambda x, E: x.append(255),
    "append 256": lambda x, E: x.append(256),
    "append -1": lambda x, E: x.append(-1),
    "append 'a'": lambda x, E: x.append("a"),
    "extend b'ab'": lambda x, E: x.extend(b"ab"),
    "extend [1,2,3]": lambda x, E: x.extend([1, 2, 3]),
    "extend 400": lambda x, E: x.extend(bytes(400)),
    "extend self": lambda x, E: x.extend(x),
    "insert 0": lambda x, E: x.insert(0, 72),
    "insert 1": lambda x, E: x.insert(1, 0),
    "insert -1": lambda x, E: x.insert(-1, 33),
    "insert 99": lambda x, E: x.insert(999999, 44),
    "x[0]=9": si(0, 9),
    "x[-1]=0": si(-1, 0),
    "x[0]=256": si(0, 256),
    "x[999]=1": si(999999, 1),
    "del x[0]": di(0),
    "del x[-1]": di(-1),
    "del x[999]": di(999999),
}
BA_READ = {
    "len": lambda x, E: len(x),
    "iterate": lambda x, E: [e for e in x],
    "x[0]": lambda x, E: x[0],
    "x[-1]": lambda x, E: x[-1],
    "x[999]": lambda x, E: x[999999],
    "x[-999]": lambda x, E: x[-999999],
    "count 0": lambda x, E: x.count(0),
    "count b'ab'": lambda x, E: x.count(b"ab"),
    "count 00": lambda x, E: x.count(b"\0\0"),
    "count b''": lambda x, E: x.count(b""),
    "find b'ab'": lambda x, E: x.find(b"ab"),
    "find b'zz'": lambda x, E: x.find(b"zz"),
    "index b'zz'": lambda x, E: x.index(b"zz"),
    "startswith": lambda x, E: x.startswith(b"H"),
    "endswith": lambda x, E: x.endswith(b"b"),
    "upper": lambda x, E: x.upper(),
    "72 in x": lambda x, E: 72 in x,
    "replace": lambda x, E: x.replace(b"a", b"__"),
}
BA = Kind("bytearray", lambda v: db0.bytearray(bytes(v)),
          dict({"b''": lambda E: bytearray(), "b'Hab'": lambda E: bytearray(b"Hab"), "b'0000'": lambda E: bytearray(4)},
               **{str(n): (lambda n: lambda E: bytearray(i % 256 for i in range(n)))(n) for n in (255, 256, 257, 4095, 4096, 4097)}),
          BA_OPS, BA_READ)


# ------------------------------------------------------------------------------------------------------------------ tuples
class TupleBox:
    """A tuple cannot change; the collection explored is the attribute that holds it."""


TUP_READ = {k: v for k, v in LIST_READ.items() if "[1:3]" not in k and ":" not in k and "copy" not in k and "+" not in k and "*" not in k}
TUP_READ.update({
    "x == tuple": lambda x, E: x == tuple(x),
    "x == tuple+1": lambda x, E: x == tuple(x) + (1,),
    "tuple == x": lambda x, E: tuple(x) == x,
    "x[0]=": lambda x, E: si(0, 1)(x, E),
})
TUP_READ.pop("x == list"), TUP_READ.pop("x != list[:-1]", None), TUP_READ.pop("x == list+1", None)
ELEMS = {"5": lambda E: 5, "'a'": lambda E: "a", "None": lambda E: None, "E0": lambda E: E[0], "(1,E1)": lambda E: (1, E[1]),
         "[E0]": lambda E: [E[0]], "{}": lambda E: {"k": E[0]}, "1.5": lambda E: 1.5, "b": lambda E: b"x\0y", "True": lambda E: True}


def tuples():
    import itertools
    res = {"()": lambda E: (), "255": lambda E: tuple(range(255)), "256": lambda E: tuple(range(256)), "257": lambda E: tuple(mix(257)(E))}
    for n in (1, 2, 3):
        for c in itertools.product(ELEMS, repeat=n):
            res[",".join(c)] = (lambda c: lambda E: tuple(ELEMS[e](E) for e in c))(c)
    return res


TUP = Kind("tuple", lambda v: db0.tuple(v), tuples(), {"noop": lambda x, E: None, "len": lambda x, E: len(x)}, TUP_READ)
# ------------------------------------------------------------------------------------------------- byte strings, list pairs
def words(alphabet, n):
    return [bytes(w) for k in range(n + 1) for w in itertools.product(alphabet, repeat=k)]


SEARCH = {"count": lambda x, p: x.count(p), "find": lambda x, p: x.find(p), "rfind": lambda x, p: x.rfind(p), "startswith": lambda x, p: x.startswith(p),
          "endswith": lambda x, p: x.endswith(p), "replace": lambda x, p: bytes(x.replace(p, b"xyz")),
          "split": lambda x, p: [bytes(b) for b in x.split(p)], "partition": lambda x, p: [bytes(b) for b in x.partition(p)], "strip": lambda x, p: bytes(x.strip(p))}


OPS_SEARCH = list(SEARCH)


def search(t, ctx):
    """Every pattern in every text over two letters."""
    d = ctx.scratch()
    S.start(d, "p")
    try:
        pats = words(b"ab", t["pattern"]) + [b"aabaab", b"ababa", b"aaaab"]
        dp = [db0.bytearray(p) for p in pats]
        for head in t["heads"]:
            for w in words(b"ab", t["rest"]):
                w = bytes(head) + w
                x, r = db0.bytearray(w), bytearray(w)
                for p, q in zip(pats, dp):
                    for n, f in SEARCH.items():
                        want = coll.attempt(f, r, p)
                        for pp in (p, q) if n in t["ops"] and n == "count" else (p,):
                            got = coll.attempt(f, x, pp)
                            ctx.count("searches")
                            if not coll.same(got, want):
                                ctx.fail({"search": 1, "heads": [list(w)], "rest": 0, "pattern": t["pattern"], "ops": t["ops"]}, f"bytearray: {n} differs from Python's",
                                         f"{w}.{n}({p}, {type(pp).__name__}): {got}, Python {want}")
                ctx.state(("search", w))
        ctx.count("histories", len(t["heads"]))
    finally:
        x = dp = pp = q = None
        S.stop()
        ctx.drop(d)


PAIR_ELEMS = [1, "a", None, 2.5, (1,), [1], [], "b"]
COMPARE = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b}
CONCAT = {"+": lambda a, b: list(a + b), "extend": lambda a, b: list(ext(a, b))}


def ext(a, b):
    a = a.copy()
    a.extend(b)
    return a


def listpairs(t, ctx):
    """All pairs of lists / tuples of up to n elements, dbzero's and Python's on either side."""
    d = ctx.scratch()
    S.start(d, "p")
    try:
        py = list if t["type"] == "list" else tuple
        vals = [py(c) for n in range(t["n"] + 1) for c in itertools.product(PAIR_ELEMS, repeat=n)]
        mk = db0.list if py is list else db0.tuple
        objs = [mk(v) for v in vals]
        root = coll.CRoot()
        root.holders = objs
        if t["committed"]:
            db0.commit()
            db0.clear_cache()
            objs = list(coll.CRoot().holders)
        for i in range(*t["left"]):
            if i >= len(vals):
                break
            for j, b in enumerate(vals):
                for n, f in dict(COMPARE, **(CONCAT if py is list and len(b) < 2 and len(vals[i]) < 2 else {})).items():
                    want = coll.attempt(f, vals[i], b)
                    for side, x, y in (("both", objs[i], objs[j]), ("left", objs[i], b), ("right", vals[i], objs[j])):
                        if side == "right" and n not in COMPARE:
                            continue
                        ctx.count("pairs")
                        got = coll.attempt(f, x, y)
                        if not coll.same(got, want):
                            ctx.fail(dict(t, left=[i, i + 1]), f"{t['type']}: {n} of two {t['type']}s differs from Python's", f"{vals[i]} {n} {b} (dbzero's: {side}): {got}, Python {want}")
            if coll.norm(objs[i]) != coll.norm(vals[i]):
                ctx.fail(dict(t, left=[i, i + 1]), f"{t['type']}: an operand changed", f"{vals[i]} became {coll.norm(objs[i])}")
            ctx.state(("pair", t["type"], i))
        ctx.count("histories", 1)
    finally:
        objs = x = y = root = None
        S.stop()
        ctx.drop(d)


KINDS = {k.name: k for k in (LIST, BA, TUP)}
BIG_OPS = ["append 5", "append E0", "pop", "pop 0", "pop 1", "pop -2", "x[0]=7", "x[-1]=E1", "x[1]='bb'", "extend self", "extend [1,E0]", "clear", "del x[0]",
           "remove 'a'", "del x[-1]"]


def plan(tier):
    res = []
    big = [str(n) for n in SIZES] + ["mix300"]
    n = 2 if tier == "quick" else 3
    total = sum(len(PAIR_ELEMS) ** k for k in range(n + 1))
    for ty in ("list", "tuple"):
        res += [{"pairs": 1, "type": ty, "n": n, "committed": c, "left": [i, i + 19]} for c in (False, True) for i in range(0, total, 19)]
    hs = [list(w) for w in words(b"ab", 3) if len(w) == 3]
    res += [{"search": 1, "heads": [h], "rest": 4 if tier == "quick" else 7, "pattern": 4 if tier == "quick" else 5, "ops": OPS_SEARCH} for h in hs]
    res += [{"search": 1, "heads": [[]], "rest": 2, "pattern": 4, "ops": OPS_SEARCH}]
    if tier == "quick":
        res += coll.tasks(LIST, 2, ["[]", "[5]", "5", "[5,E0,'a',5]"], ["none", "clear", "reopen", "handles"])
        res += coll.tasks(LIST, 3, ["[]", "[5,E0,'a',5]"], ["none", "mixed"], BIG_OPS + ["remove 5", "append [1,[E1]]"])
        res += coll.tasks(LIST, 2, big, ["none"], BIG_OPS, batch=40)
        res += coll.tasks(LIST, 1, big, ["clear", "reopen"], BIG_OPS, batch=40)
        res += coll.tasks(BA, 2, ["b''", "b'Hab'", "b'0000'"], ["none", "clear", "reopen", "handles"])
        res += coll.tasks(BA, 3, ["b'Hab'"], ["mixed"])
        res += coll.tasks(BA, 2, ["255", "256", "4096"], ["none"], batch=60)
        res += coll.tasks(BA, 1, ["257", "4095", "4096", "4097"], ["clear"], batch=60)
        res += coll.tasks(TUP, 1, list(TUP.starts), ["none", "reopen"], ["noop"])
    else:
        res += coll.tasks(LIST, 3, ["[]", "[5]", "5", "[5,E0,'a',5]"], ["none", "clear", "reopen", "handles", "mixed"])
        res += coll.tasks(LIST, 4, ["[]", "[5,E0,'a',5]"], ["none", "mixed"], BIG_OPS)
        res += coll.tasks(LIST, 3, big, ["none", "mixed"], BIG_OPS, batch=60)
        res += coll.tasks(BA, 3, ["b''", "b'Hab'", "b'0000'"], ["none", "clear", "reopen", "mixed"])
        res += coll.tasks(BA, 4, ["b'Hab'"], ["none"])
        res += coll.tasks(BA, 2, ["255", "256", "257", "4095", "4096", "4097"], ["none", "clear", "reopen"], batch=60)
        res += coll.tasks(TUP, 1, list(TUP.starts), ["none", "clear", "reopen", "handles"], ["noop"])
    return res


def run_task(t, ctx):
    if "search" in t:
        return search(t, ctx)
    if "pairs" in t:
        return listpairs(t, ctx)
    coll.run_task(KINDS[t["kind"]], t, ctx)
