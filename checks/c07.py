"""C07  Dicts behave like Python's, for every sequence of operations they support.

Bounded space: every sequence of operations up to the depth over the alphabet below (keys of all supported kinds, among them
groups with equal hashes) from every start value (empty, one item, a few, many colliding, many items), with every barrier
pattern between the operations.  Oracle: the same calls on a Python dict.
"""
import datetime
import itertools
import dbzero as db0
import coll
from coll import Kind, norm, key, hashable

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of operation sequences on the real dict, with Python's dict as the reference model"
ASSUMPTIONS = ["single process, single thread", "the order of items is not compared (the property excludes it)",
               "operations dbzero does not offer (popitem, |) are outside the alphabet"]

KEYS = {"'a'": "a", "1": 1, "-1": -1, "-2": -2, "(1,2)": (1, 2), "(2,1)": (2, 1), "None": None, "b'a'": b"a", "''": "", "1.0": 1.0, "1.5": 1.5, "True": True,
        "date": datetime.date(2020, 2, 29), "(1,(2,'a'))": (1, (2, "a")), "(3,0)": (3, 0), "()": (), "'a\\0b'": "a\0b"}
COLLIDE = [p for p in itertools.permutations((1, 2, 3, 4, 5))]


def put(k, v):
    def f(x, E):
        x[k(E) if callable(k) else k] = v(E) if callable(v) else v
    return f


def dele(k):
    def f(x, E):
        del x[k(E) if callable(k) else k]
    return f


class Bad:
    pass


OPS = {
    "['a']=1": put("a", 1),
    "['a']=E0": put("a", lambda E: E[0]),
    "['a']=[1,E1]": put("a", lambda E: [1, E[1]]),
    "[1]='x'": put(1, "x"),
    "[-1]=None": put(-1, None),
    "[(1,2)]=E0": put((1, 2), lambda E: E[0]),
    "[(2,1)]={'k':E1}": put((2, 1), lambda E: {"k": E[1]}),
    "[(2,1)]=2": put((2, 1), 2),
    "[E0]=E1": put(lambda E: E[0], lambda E: E[1]),
    "[E0]=3": put(lambda E: E[0], 3),
    "[None]=()": put(None, ()),
    "[[1]]=1": put(lambda E: [1], 1),
    "['b']=bad": put("b", lambda E: Bad() if not isinstance(E[0], coll.Ref) else int("x")),
    "del 'a'": dele("a"),
    "del 1": dele(1),
    "del (1,2)": dele((1, 2)),
    "del (2,1)": dele((2, 1)),
    "del E0": dele(lambda E: E[0]),
    "del [1]": dele(lambda E: [1]),
    "pop 'a'": lambda x, E: x.pop("a"),
    "pop (2,1)": lambda x, E: x.pop((2, 1)),
    "pop -1": lambda x, E: x.pop(-1),
    "pop 'a',E2": lambda x, E: x.pop("a", E[2]),
    "pop (1,2),None": lambda x, E: x.pop((1, 2), None),
    "pop [1],0": lambda x, E: x.pop([1], 0) if len(x) else 0,
    "setdefault 'a',E1": lambda x, E: x.setdefault("a", E[1]),
    "setdefault (1,2)": lambda x, E: x.setdefault((1, 2)),
    "setdefault [1]": lambda x, E: x.setdefault([1]),
    "update dict": lambda x, E: x.update({"a": 5, (1, 2): E[0], "c": 2}),
    "update kw": lambda x, E: x.update(a=E[1], z=1),
    "update pairs": lambda x, E: x.update([("a", 1), [(2, 1), E[1]]]),
    "update iter kw": lambda x, E: x.update(iter([(1, 2), (-1, 3)]), q=1),
    "update self": lambda x, E: x.update(x),
    "update bad": lambda x, E: x.update([("a", 7), (1, 2, 3)]),
    "update 5": lambda x, E: x.update(5),
    "clear": lambda x, E: x.clear(),
}


def others(x, **kw):
    """A Python dict equal to x, changed as asked."""
    d = {hashable(k): x[k] for k in list(x)}
    if kw.get("drop") and d:
        d.pop(next(iter(d)))
    if kw.get("change") and d:
        d[next(iter(d))] = "changed"
    if kw.get("more"):
        d["another key"] = 1
    return d


READ = {"len": lambda x, E: len(x),
        "bool": lambda x, E: bool(x),
        "keys": lambda x, E: (len(list(x.keys())), frozenset(key(k) for k in x.keys())),
        "iter": lambda x, E: (len([k for k in x]), frozenset(key(k) for k in x)),
        "values": lambda x, E: sorted(repr(norm(v)) for v in x.values()),
        "items": lambda x, E: (len(list(x.items())), frozenset((key(k), norm(v)) for k, v in x.items())),
        "len keys": lambda x, E: (len(x.keys()), len(x.values()), len(x.items())),
        "copy": lambda x, E: x.copy(),
        "copy == x": lambda x, E: x.copy() == x,
        "copy independent": lambda x, E: copied(x),
        "[E0]": lambda x, E: x[E[0]], "E0 in": lambda x, E: E[0] in x, "get E0": lambda x, E: x.get(E[0]),
        "E2 in": lambda x, E: E[2] in x,
        "get [1]": lambda x, E: x.get([1]), "[1] in": lambda x, E: [1] in x,
        "get 'zz',E0": lambda x, E: x.get("zz", E[0]),
        "x == dict": lambda x, E: x == others(x),
        "x == dropped": lambda x, E: x == others(x, drop=1),
        "x == changed": lambda x, E: x == others(x, change=1),
        "x != more": lambda x, E: x != others(x, more=1),
        "x == None": lambda x, E: x == None,
        }
for n, k in KEYS.items():
    READ["[%s]" % n] = (lambda k: lambda x, E: x[k])(k)
    READ["%s in" % n] = (lambda k: lambda x, E: k in x)(k)
    READ["get %s" % n] = (lambda k: lambda x, E: x.get(k, "nope"))(k)
for i in (0, 1, 60, 119):
    READ["[C%d]" % i] = (lambda k: lambda x, E: x[k])(COLLIDE[i])


def copied(x):
    y = x.copy()
    y["only in the copy"] = 1
    y.pop("a", None)
    return ["only in the copy" in x, len(x), "a" in x]


def start(n):
    return lambda E: {k: i for i, k in enumerate(COLLIDE[:n])}


STARTS = {"{}": lambda E: {}, "{'a':E0}": lambda E: {"a": E[0]}, "2 colliding": lambda E: {(1, 2): E[1], (2, 1): "y"},
          "all kinds": lambda E: dict([(k, i) for i, k in enumerate(KEYS.values())] + [(E[0], E[1])]),
          "200": lambda E: dict([(i, i) for i in range(100)] + [("k%d" % i, str(i)) for i in range(100)]),
          "nested": lambda E: {"a": {"b": {"c": [E[0], (E[1],)]}}, 1: {1, 2}, (1, 2): b"x"}}
for n in (3, 4, 5, 8, 40, 120):
    STARTS["C%d" % n] = start(n)
for i in (0, 1, 2, 4, 59, 119):
    OPS["C%d" % i] = put(COLLIDE[i], 100 + i)
    OPS["del C%d" % i] = dele(COLLIDE[i])
OPS["del C0..C3"] = lambda x, E: [x.pop(c) for c in COLLIDE[:4]]
COLL_OPS = [o for o in OPS if " C" in o or o[0] == "C"] + ["clear", "update self", "['a']=E0", "pop (2,1)"]
CORE = ["['a']=1", "['a']=E0", "[-1]=None", "[(1,2)]=E0", "[(2,1)]={'k':E1}", "[E0]=E1", "del 'a'", "del (1,2)", "pop (2,1)", "del E0", "setdefault 'a',E1", "update dict",
        "clear", "update pairs"]
BASE = [o for o in OPS if o not in COLL_OPS[:-4]]

DICT = Kind("dict", lambda v: db0.dict(v), STARTS, OPS, READ)
KINDS = {"dict": DICT}


def plan(tier):
    small = ["{}", "{'a':E0}", "2 colliding"]
    wide = ["all kinds", "200", "nested"]
    coll_starts = ["2 colliding", "C3", "C4", "C5", "C8", "C40", "C120"]
    res = []
    if tier == "quick":
        res += coll.tasks(DICT, 2, small, ["none", "clear", "reopen", "handles"], BASE)
        res += coll.tasks(DICT, 3, ["{}", "2 colliding"], ["mixed"], CORE)
        res += coll.tasks(DICT, 1, wide, ["none", "clear", "reopen"], BASE, batch=60)
        res += coll.tasks(DICT, 2, coll_starts, ["none"], COLL_OPS, batch=100)
        res += coll.tasks(DICT, 1, coll_starts, ["clear", "reopen", "handles", "commit"], COLL_OPS, batch=100)
    else:
        res += coll.tasks(DICT, 3, small, ["none", "clear", "reopen", "handles", "mixed", "commit"], BASE)
        res += coll.tasks(DICT, 4, ["{}", "2 colliding"], ["mixed", "none"], CORE)
        res += coll.tasks(DICT, 2, wide, ["none", "clear", "reopen", "mixed"], BASE, batch=60)
        res += coll.tasks(DICT, 3, coll_starts, ["none", "mixed"], COLL_OPS, batch=200)
    return res


def run_task(t, ctx):
    coll.run_task(KINDS[t["kind"]], t, ctx)
