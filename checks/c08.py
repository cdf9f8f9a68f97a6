"""C08  Sets behave like Python's, for every sequence of operations and all set algebra they support.

Bounded space: (a) every sequence of operations up to the depth over the alphabet below from every start value, with every
barrier pattern between the operations; (b) every pair of subsets of the element universe (with elements of equal hash) under
every binary method, operator and in-place operator, with the right operand as a set, a dbzero set, a list, an iterator and the
set itself.  Oracle: the same calls on a Python set.
"""
import datetime
import gc
import itertools
import dbzero as db0
import coll
import session as S
from coll import Kind, norm, key, attempt, same, hashable

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of operation sequences and of all operand pairs on the real set, with Python's set as the reference model"
ASSUMPTIONS = ["single process, single thread", "comparisons with a frozenset and a Python set as the left operand are not offered by dbzero and outside the alphabet"]
COLLIDE = [p for p in itertools.permutations((1, 2, 3, 4, 5))]
KEYS = {"'a'": "a", "1": 1, "-1": -1, "(1,2)": (1, 2), "(2,1)": (2, 1), "None": None, "b'a'": b"a", "''": "", "1.0": 1.0, "1.5": 1.5, "True": True,
        "date": datetime.date(2020, 2, 29), "(1,(2,'a'))": (1, (2, "a")), "(3,0)": (3, 0), "()": (), "'a\\0b'": "a\0b"}


def e(v):
    return v if callable(v) else lambda E: v


def add(v):
    v = e(v)
    return lambda x, E: x.add(v(E))


def rem(v):
    v = e(v)
    return lambda x, E: x.remove(v(E))


def dis(v):
    v = e(v)
    return lambda x, E: x.discard(v(E))


def inplace(op, v):
    def f(x, E):
        y = x
        if op == "|":
            x |= v(E, y)
        elif op == "&":
            x &= v(E, y)
        elif op == "-":
            x -= v(E, y)
        else:
            x ^= v(E, y)
        return x is y
    return f


OPS = {"add 'a'": add("a"), "add 1": add(1), "add -1": add(-1), "add (1,2)": add((1, 2)), "add (2,1)": add((2, 1)), "add E0": add(lambda E: E[0]),
       "add (1,E1)": add(lambda E: (1, E[1])), "add [1]": add(lambda E: [1]), "add None": add(None), "add 1.0": add(1.0),
       "remove 'a'": rem("a"), "remove (1,2)": rem((1, 2)), "remove (2,1)": rem((2, 1)), "remove E0": rem(lambda E: E[0]), "remove [1]": rem(lambda E: [1]),
       "discard 'a'": dis("a"), "discard -1": dis(-1), "discard (2,1)": dis((2, 1)), "discard E0": dis(lambda E: E[0]), "discard [1]": dis(lambda E: [1]),
       "pop": lambda x, E: x.pop(),
       "clear": lambda x, E: x.clear(),
       "update list": lambda x, E: x.update(["a", (1, 2), E[0]]),
       "update str": lambda x, E: x.update("ab"),
       "update self": lambda x, E: x.update(x),
       "update 5": lambda x, E: x.update(5),
       "update bad": lambda x, E: x.update(["q", [1]]),
       "|= {..}": inplace("|", lambda E, x: {"a", (2, 1), E[1]}),
       "&= {..}": inplace("&", lambda E, x: {"a", (2, 1), E[0]}),
       "-= {..}": inplace("-", lambda E, x: {"a", (1, 2), E[0]}),
       "^= {..}": inplace("^", lambda E, x: {"a", (1, 2), E[0]}),
       "|= self": inplace("|", lambda E, x: x), "&= self": inplace("&", lambda E, x: x), "-= self": inplace("-", lambda E, x: x), "^= self": inplace("^", lambda E, x: x),
       "|= 5": inplace("|", lambda E, x: 5),
       }


def sync_pop(ref, got):
    """pop removes an arbitrary element: it must be one of those present; KeyError when empty"""
    if not ref:
        return None if got == ("raised", "KeyError") else f"pop on an empty set gives {got}"
    if got[0] != "ok":
        return f"pop on a set with elements gives {got}"
    for r in ref:
        if norm(r) == got[1] or key(r) == (got[1][1] if got[1][0] == "v" else got[1]):
            ref.remove(r)
            return None
    return f"pop returned {got[1]}, which is not an element"


READ = {"len": lambda x, E: len(x), "bool": lambda x, E: bool(x),
        "iter": lambda x, E: (len([v for v in x]), frozenset(key(v) for v in x)),
        "copy": lambda x, E: x.copy(), "copy == x": lambda x, E: x.copy() == x, "copy independent": lambda x, E: copied(x),
        "E0 in": lambda x, E: E[0] in x, "E2 in": lambda x, E: E[2] in x, "[1] in": lambda x, E: [1] in x,
        "x == set(x)": lambda x, E: x == {hashable(v) for v in x}, "x == more": lambda x, E: x == {hashable(v) for v in x} | {"zzz"}, "x == None": lambda x, E: x == None,
        "x != other": lambda x, E: x != {"zzz"},
        "|": lambda x, E: x | {"a", E[1]}, "&": lambda x, E: x & {"a", (1, 2), E[0]}, "-": lambda x, E: x - {"a", (2, 1), E[0]}, "^": lambda x, E: x ^ {"a", (1, 2), E[0]},
        "<=": lambda x, E: x <= {"a", (1, 2), (2, 1), E[0], 1, -1}, "union": lambda x, E: x.union(["a", 7], [E[2]])}


def copied(x):
    y = x.copy()
    y.add("only in the copy")
    y.discard("a")
    return ["only in the copy" in x, len(x), "a" in x]


for n, k in KEYS.items():
    READ["%s in" % n] = (lambda k: lambda x, E: k in x)(k)
STARTS = {"{}": lambda E: set(), "{'a',E0}": lambda E: {"a", E[0]}, "2 colliding": lambda E: {(1, 2), (2, 1)},
          "all kinds": lambda E: set(KEYS.values()) | {E[0], (E[1], 2)}, "200": lambda E: set(range(100)) | {"k%d" % i for i in range(100)}}
for n in (3, 4, 5, 8, 40, 120):
    STARTS["C%d" % n] = (lambda n: lambda E: set(COLLIDE[:n]))(n)
STARTS["E colliding"] = lambda E: {(E[0], 1), (1, E[0]), (E[1], E[2]), (E[2], E[1]), (E[0], E[1], 1), (E[1], 1, E[0])}
OPS["add (E0,2)"] = add(lambda E: (E[0], 2))
OPS["add (2,E0)"] = add(lambda E: (2, E[0]))
OPS["remove (1,E0)"] = rem(lambda E: (1, E[0]))
OPS["discard (E0,1)"] = dis(lambda E: (E[0], 1))
OPS["discard (E2,E1)"] = dis(lambda E: (E[2], E[1]))
for i in (0, 1, 2, 4, 59, 119):
    OPS["add C%d" % i] = add(COLLIDE[i])
    OPS["remove C%d" % i] = rem(COLLIDE[i])
    READ["C%d in" % i] = (lambda k: lambda x, E: k in x)(COLLIDE[i])
OPS["discard C0..C3"] = lambda x, E: [x.discard(c) for c in COLLIDE[:4]]
COLL_OPS = [o for o in OPS if " C" in o] + ["clear", "pop", "update self", "add E0", "^= {..}"]
E_OPS = [o for o in OPS if "(E" in o or ",E0)" in o] + ["clear", "pop", "update self", "add E0", "^= {..}", "&= {..}", "-= {..}"]
CORE = ["add 'a'", "add -1", "add (1,2)", "add (2,1)", "add E0", "add (1,E1)", "remove 'a'", "remove (1,2)", "discard (2,1)", "remove E0", "pop", "clear", "|= {..}", "^= {..}", "&= {..}",
        "-= {..}"]
BASE = [o for o in OPS if " C" not in o]
SET = Kind("set", lambda v: db0.set(v), STARTS, OPS, READ, sync={"pop": sync_pop})

# ----------------------------------------------------------------------------------------------------------- operand pairs
UNIVERSE = [1, -1, "a", (1, 2), (2, 1), None]
SUBSETS = [c for n in range(len(UNIVERSE) + 1) for c in itertools.combinations(UNIVERSE, n)]
METHODS = ["union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint", "update"]
OPERATORS = ["__or__", "__and__", "__sub__", "__xor__", "__ior__", "__iand__", "__isub__", "__ixor__", "__eq__", "__ne__", "__le__", "__lt__", "__ge__", "__gt__"]
RIGHT = {"set": set, "dbzero set": None, "list": list, "iterator": iter, "tuple": tuple}


def pairs(t, ctx):
    """All right operands for the given left operands; a fresh left operand for every call that changes it."""
    d = ctx.scratch()
    S.start(d, "p")
    try:
        sets = [db0.set(list(b)) for b in SUBSETS]
        root = coll.CRoot()
        root.holders = sets
        if t["committed"]:
            db0.commit()
            db0.clear_cache()
            sets = list(coll.CRoot().holders)
        for ai in t["left"]:
            a = SUBSETS[ai]
            for bi, b in enumerate(SUBSETS):
                for kind in RIGHT:
                    for m in METHODS + (OPERATORS if kind in ("set", "dbzero set") else []):
                        changes = m == "update" or m[2] == "i" and m not in ("issubset", "issuperset", "isdisjoint") and m.startswith("__i")
                        x = db0.set(list(a)) if changes else sets[ai]
                        r = set(a)
                        case = {"left": [ai], "committed": t["committed"], "only": [bi, kind, m]}
                        if "only" in t and t["only"] != [bi, kind, m]:
                            continue
                        ctx.count("pairs")
                        got = attempt(lambda: getattr(x, m)(sets[bi] if kind == "dbzero set" else RIGHT[kind](b)))
                        want = attempt(lambda: getattr(r, m)(set(b) if kind == "dbzero set" else RIGHT[kind](b)))
                        gx, gr = norm(x), norm(r)
                        if not same(got, want) or gx != gr:
                            ctx.fail(case, f"{m} differs from Python's", f"{set(a)}.{m}({kind} of {set(b)}): returned {str(got)[:300]}, Python {str(want)[:300]}; "
                                     f"the set is then {gx}, Python's {gr}")
                        if gx != gr and not changes:
                            sets[ai] = db0.set(list(a))
                if norm(sets[bi]) != norm(set(b)):
                    ctx.fail({"left": [ai], "committed": t["committed"]}, "an operand changed", f"after operators with {set(b)} on the right it is {norm(sets[bi])}")
                    sets[bi] = db0.set(list(b))
            for m in METHODS + OPERATORS:
                x, r = db0.set(list(a)), set(a)
                got, want = attempt(lambda: getattr(x, m)(x)), attempt(lambda: getattr(r, m)(r))
                ctx.count("pairs")
                if not same(got, want) or norm(x) != norm(r):
                    ctx.fail({"left": [ai], "committed": t["committed"]}, f"{m} with itself differs from Python's", f"{set(a)}: returned {got}, Python {want}; then {norm(x)}, Python's {norm(r)}")
            ctx.state(("pair", a))
        ctx.count("histories", len(t["left"]))
    finally:
        sets = x = root = None
        gc.collect()
        S.stop()
        ctx.drop(d)


KINDS = {"set": SET}


def plan(tier):
    small = ["{}", "{'a',E0}", "2 colliding"]
    coll_starts = ["2 colliding", "C3", "C4", "C5", "C8", "C40", "C120"]
    res = []
    if tier == "quick":
        res += coll.tasks(SET, 2, small, ["none", "clear", "reopen", "handles"], BASE)
        res += coll.tasks(SET, 3, ["{}", "2 colliding"], ["mixed"], CORE)
        res += coll.tasks(SET, 1, ["all kinds", "200"], ["none", "clear", "reopen"], BASE, batch=60)
        res += coll.tasks(SET, 2, coll_starts, ["none"], COLL_OPS, batch=100)
        res += coll.tasks(SET, 2, ["E colliding"], ["none", "clear", "reopen"], E_OPS)
        res += coll.tasks(SET, 1, coll_starts, ["clear", "reopen", "handles", "commit"], COLL_OPS, batch=100)
    else:
        res += coll.tasks(SET, 3, small, ["none", "clear", "reopen", "handles", "mixed"], BASE)
        res += coll.tasks(SET, 4, ["{}", "2 colliding"], ["mixed", "none"], CORE)
        res += coll.tasks(SET, 2, ["all kinds", "200"], ["none", "clear", "reopen", "mixed"], BASE, batch=60)
        res += coll.tasks(SET, 3, coll_starts, ["none", "mixed"], COLL_OPS, batch=200)
        res += coll.tasks(SET, 3, ["E colliding", "{}"], ["none", "mixed", "reopen"], E_OPS)
    step = 8
    for committed in ((True,) if tier == "quick" else (False, True)):
        res += [{"left": list(range(i, min(i + step, len(SUBSETS)))), "committed": committed} for i in range(0, len(SUBSETS), step)]
    return res


def run_task(t, ctx):
    if "left" in t:
        pairs(t, ctx)
    else:
        coll.run_task(KINDS[t["kind"]], t, ctx)
