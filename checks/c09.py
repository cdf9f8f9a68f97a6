"""C09  A member of an object holds exactly the value last assigned to it.

(a) Every sequence of assignments, deletions and in-place changes up to the depth over member slots (set in the constructor in
several layouts, added later) and value kinds, with every barrier pattern; the other members, the reference counts of the
objects referred to and (b) every value of the value menu in every place a value can be stored are compared with Python's.
"""
import datetime as D
import itertools
from decimal import Decimal
import dbzero as db0
import coll
import session as S
from coll import Kind, norm

LEVEL = "model_checking"
TECHNIQUE = "exhaustive bounded exploration of assignment histories on real objects, with a dict of attributes as the reference model"
ASSUMPTIONS = ["single process, single thread",
               "limits kept from the value menu: milliseconds of timezone-aware datetimes, 17 digits of decimals, `fold` and the sign of a zero decimal are not stored",
               "values of unsupported types are only required to be rejected"]

NAMES = ["a", "b", "c", "d"]


@db0.enum(values=["RED", "GREEN", "BLUE"])
class C9Color:
    pass


def construct(x, spec, log):
    """The assignments, deletions and reads a constructor makes. Deleting a member never assigned is accepted in constructors."""
    for k, v in spec:
        if v == "!del":
            try:
                delattr(x, k)
            except AttributeError:
                pass
        elif v == "!read":
            try:
                log.append([k, norm(getattr(x, k))])
            except AttributeError:
                log.append([k, "missing"])
        elif v == "!raise":
            raise ValueError("the constructor fails")
        else:
            setattr(x, k, v)


@db0.memo
class C9Free:
    """Members as the specification says, in one class: the layouts of the instances share the class' field table."""
    def __init__(self, spec, log=None):
        construct(self, spec, [] if log is None else log)


@db0.memo
class C9Fixed:
    def __init__(self, spec):
        self.a = None
        self.b = True
        self.f0 = 0
        self.f1 = "text"
        self.f2 = False
        self.f3 = None
        for k, v in spec:
            setattr(self, k, v)


@db0.memo
class C9Wide:
    def __init__(self, spec):
        for i in range(40):
            setattr(self, "w%d" % i, [i, None, i % 2 == 0, "s%d" % i][i % 4])
        for k, v in spec:
            setattr(self, k, v)


@db0.memo(no_default_tags=True)
class C9Base:
    def __init__(self, spec):
        self.a = 1
        self.z = None


@db0.memo(no_default_tags=True)
class C9Derived(C9Base):
    def __init__(self, spec):
        self.b = False
        super().__init__(spec)
        for k, v in spec:
            setattr(self, k, v)


CLASSES = {"free": C9Free, "fixed": C9Fixed, "wide": C9Wide, "derived": C9Derived}
MEMBERS = NAMES + ["z", "f0", "f1", "f2", "f3"] + ["w%d" % i for i in range(40)]


class Obj:
    """Specification of an object; on the Python side also the object"""
    def __init__(self, cls, spec):
        self.cls_, self.spec_ = cls, spec
        d = self.__dict__
        if cls == "fixed":
            d.update(a=None, b=True, f0=0, f1="text", f2=False, f3=None)
        elif cls == "wide":
            for i in range(40):
                d["w%d" % i] = [i, None, i % 2 == 0, "s%d" % i][i % 4]
        elif cls == "derived":
            d.update(a=1, z=None, b=False)
        self.log_ = []
        try:
            construct(self, spec, self.log_)
        except ValueError:
            d.clear()
            self.cls_, self.spec_ = cls, spec

    def members(self):
        return {k: v for k, v in self.__dict__.items() if k in MEMBERS}


def content(x):
    if x is None:
        return {}                        # the constructor failed
    if isinstance(x, Obj):
        return {k: norm(v) for k, v in x.members().items()}
    res = {}
    for m in MEMBERS:
        try:
            res[m] = norm(getattr(x, m))
        except AttributeError:
            pass
    return res


# kinds of values: one per way of storing, and a few transitions within one
VALUES = {"7": lambda E: 7, "None": lambda E: None, "True": lambda E: True, "False": lambda E: False, "-1.5": lambda E: -1.5, "'s'": lambda E: "s", "'long'": lambda E: "long " * 30,
          "b''": lambda E: b"a\0b", "date": lambda E: D.date(2020, 2, 29), "E0": lambda E: E[0], "E1": lambda E: E[1], "[E0]": lambda E: [1, E[0]], "(E1,)": lambda E: (E[1], 2),
          "{k:E0}": lambda E: {"k": E[0]}, "{1}": lambda E: {1, "x"}, "RED": lambda E: C9Color.RED}
SMALL = ["7", "None", "True", "'s'", "E0", "[E0]"]
TINY = ["None", "True", "7", "E1"]


def put(n, v):
    return lambda x, E: setattr(x, n, v(E))


OPS = {}
for n in NAMES:
    for v, f in VALUES.items():
        OPS[f"{n}={v}"] = put(n, f)
    OPS[f"del {n}"] = (lambda n: lambda x, E: delattr(x, n))(n)
    OPS[f"{n}=object()"] = (lambda n: lambda x, E: setattr(x, n, 1j) if not isinstance(x, Obj) else [][0])(n)
    OPS[f"{n}.append"] = (lambda n: lambda x, E: getattr(x, n).append(E[1]))(n)
    OPS[f"{n}+=1"] = (lambda n: lambda x, E: setattr(x, n, getattr(x, n) + 1))(n)
    OPS[f"{n}={n}"] = (lambda n: lambda x, E: setattr(x, n, getattr(x, n)))(n)
OPS["a=b"] = lambda x, E: setattr(x, "a", x.b)
OPS["swap a b"] = lambda x, E: (lambda p, q: (setattr(x, "a", q), setattr(x, "b", p)))(x.a, x.b) and None
for i in (0, 1, 2, 3, 37, 38, 39):
    for v in TINY:
        OPS[f"w{i}={v}"] = put("w%d" % i, VALUES[v])
    OPS[f"del w{i}"] = (lambda n: lambda x, E: delattr(x, n))("w%d" % i)


def attr(n):
    return lambda x, E: getattr(x, n)


READ = {f"x.{n}": attr(n) for n in NAMES + ["z", "nosuch"]}
READ.update({f"hasattr {n}": (lambda n: lambda x, E: hasattr(x, n))(n) for n in NAMES})

STARTS = {"free": lambda E: Obj("free", []),
          "free a=1": lambda E: Obj("free", [("a", 1)]),
          "free b=None": lambda E: Obj("free", [("b", None)]),
          "free d,c,b,a": lambda E: Obj("free", [("d", None), ("c", True), ("b", False), ("a", None)]),
          "free a=E0,c='s'": lambda E: Obj("free", [("a", E[0]), ("c", "s")]),
          "free a twice": lambda E: Obj("free", [("a", E[0]), ("b", 1), ("a", None), ("b", E[1])]),
          "free a deleted": lambda E: Obj("free", [("a", E[0]), ("b", None), ("a", "!del"), ("b", "!del"), ("b", 3)]),
          "fixed": lambda E: Obj("fixed", []),
          "fixed a=[E0]": lambda E: Obj("fixed", [("a", [E[0]]), ("b", 2)]),
          "wide": lambda E: Obj("wide", []),
          "derived": lambda E: Obj("derived", [("c", None)])}


# constructors: every sequence of up to 3 steps over two members
STEPS = [("a", 7), ("a", None), ("a", "E0"), ("a", "[E0]"), ("a", "!del"), ("a", "!read"), ("b", True), ("b", "E0"), ("b", "!del")]


def ctor(steps, end):
    def f(E):
        return Obj("free", [(k, E[0] if v == "E0" else [E[0]] if v == "[E0]" else v) for k, v in steps] + end)
    return f


CTORS = {}
for _n in (1, 2, 3, 4):
    for _p in itertools.product(STEPS, repeat=_n):
        if _n < 4 or all(k == "a" for k, _ in _p):
            for _end in ([("a", "!read"), ("b", "!read")], [("x", "!raise")]):
                CTORS[f"ctor {_n} " + " ".join(f"{k}={v}" for k, v in _p) + (" raise" if _end[0][0] == "x" else "")] = ctor(_p, _end)
STARTS.update(CTORS)
OPS["nop"] = lambda x, E: None


def make(o):
    if o.cls_ != "free":
        return CLASSES[o.cls_](o.spec_)
    log = []
    try:
        res = C9Free(o.spec_, log)
    except ValueError:
        return None
    if log != o.log_ and "log_" in o.__dict__:
        raise AssertionError(f"a constructor reads {log}, expected {o.log_}")
    return res


KIND = Kind("object", make, STARTS, OPS, READ, content=content)
KIND.shared = True                       # instances share the field table of their class: a failure is reported with its batch

# --------------------------------------------------------------------------------------------- members added after construction


@db0.memo
class C9Dyn:
    def __init__(self):
        self.first = 1


DYN = ["first"] + ["k%d" % i for i in range(48)]


class Dyn:
    """An object whose members k… are all assigned after its construction"""
    def __init__(self, spec):
        self.first = 1
        self.spec_ = spec
        construct(self, spec, [])

    def members(self):
        return {k: v for k, v in self.__dict__.items() if k in DYN}


def make_dyn(o):
    x = C9Dyn()
    construct(x, o.spec_, [])
    return x


def content_dyn(x):
    res = {}
    for m in DYN:
        try:
            res[m] = norm(getattr(x, m))
        except AttributeError:
            pass
    return res


DYN_VALUES = {"7": lambda E: 7, "None": lambda E: None, "True": lambda E: True, "'s'": lambda E: "s", "E0": lambda E: E[0], "[E1]": lambda E: [E[1]]}


def dyn_start(n, order, mix):
    def f(E):
        ks = list(range(n))
        ks = ks if order == "up" else ks[::-1] if order == "down" else ks[n // 2:] + ks[:n // 2]
        vs = list(DYN_VALUES.values())
        return Dyn([("k%d" % k, vs[k % len(vs)](E) if mix else k) for k in ks])
    return f


SIZES = [0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 12, 15, 16, 17, 20, 24, 32, 33, 40, 44]
DSTARTS = {f"{n} {order} {'mixed' if mix else 'numbers'}": dyn_start(n, order, mix) for mix in (False, True) for order in ("up", "down", "mid") for n in SIZES}
AT = [0, 1, 3, 4, 5, 8, 9, 10, 11, 19, 31, 40, 44, 47]


def several(steps):
    def f(x, E):
        for k, v in steps:
            if v is None:
                try:
                    delattr(x, "k%d" % k)
                except AttributeError:
                    pass
            else:
                setattr(x, "k%d" % k, DYN_VALUES[v](E))
    return f


DOPS = {f"k{i}={v}": put("k%d" % i, f) for i in AT for v, f in DYN_VALUES.items()}
DOPS.update({f"del k{i}": (lambda n: lambda x, E: delattr(x, n))("k%d" % i) for i in AT})
DOPS["add 10"] = several([(k, "7") for k in range(30, 40)])
DOPS["add 20 down"] = several([(k, "E0") for k in range(47, 27, -1)])
DOPS["replace 0..15"] = several([(k, "'s'") for k in range(16)])
DOPS["None 0..15"] = several([(k, "None") for k in range(16)])
DOPS["del even"] = several([(k, None) for k in range(0, 48, 2)])
DOPS["del all"] = several([(k, None) for k in range(48)])
DOPS["del 0..11"] = several([(k, None) for k in range(12)])
DOPS["clear and refill"] = several([(k, None) for k in range(48)] + [(k, "E1") for k in range(7)])
MANY = [o for o in DOPS if o.split()[0] in ("add", "replace", "None", "clear") or o in ("del even", "del all", "del 0..11")]
KIND_DYN = Kind("dyn", make_dyn, DSTARTS, DOPS, {"x.k5": attr("k5"), "x.nosuch": attr("nosuch"), "hasattr k9": lambda x, E: hasattr(x, "k9")}, content=content_dyn)
KIND_DYN.shared = True


def dyn_plan(tier):
    few = [s for s in DSTARTS if int(s.split()[0]) in (0, 3, 4, 9, 10, 16, 32, 44)]
    core = [f"k{i}={v}" for i in (0, 4, 9, 10, 31, 47) for v in ("7", "None", "E0")] + [f"del k{i}" for i in (0, 4, 9, 31)] + MANY
    if tier == "quick":
        res = coll.tasks(KIND_DYN, 1, list(DSTARTS), ["none", "clear"], batch=1300)
        res += coll.tasks(KIND_DYN, 1, few, ["commit/A", "reopen/X"], batch=900)
        res += coll.tasks(KIND_DYN, 2, [s for s in few if s.endswith("down mixed") or s.endswith("up numbers")], ["none"], core, batch=1000)
        res += coll.tasks(KIND_DYN, 2, ["4 up mixed", "10 up mixed"], ["mixed", "none/AX", "clear/XA"], core, batch=1000)
        return res
    res = coll.tasks(KIND_DYN, 1, list(DSTARTS), ["none", "clear", "reopen", "handles", "none/A", "clear/X", "reopen/A"], batch=1300)
    res += coll.tasks(KIND_DYN, 2, list(DSTARTS), ["none", "clear", "mixed"], core, batch=1300)
    res += coll.tasks(KIND_DYN, 2, few, ["none/AX", "clear/XA", "reopen", "none/AA", "handles"], core, batch=1300)
    res += coll.tasks(KIND_DYN, 3, ["0 up mixed", "4 up mixed", "9 down mixed", "16 mid numbers"], ["none", "clear", "none/AXA"], MANY + ["k0=E0", "k9=None", "k31=7", "del k4"], batch=1300)
    return res


# ---------------------------------------------------------------------------------------------------------------- value menu


def tz(h, m=0):
    return D.timezone(D.timedelta(hours=h, minutes=m))


def texts():
    alphabet = ["a", "0", "_", "Z", "é", "漢", "\0", " "]
    res = [""] + ["".join(p) for n in (1, 2) for p in itertools.product(alphabet, repeat=n)]
    res += ["x" * n for n in list(range(3, 40)) + [62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 4000, 4090, 4095, 4096, 4097, 8191, 8192, 8193, 70000]]
    res += ["abcdefghijklmnop"[:n] for n in range(3, 17)] + ["é" * n for n in range(3, 12)] + ["\U0001f600", "a\0b\0", "\0" * 9]
    return res


def menu():
    ints = sorted({s * (2 ** k + d) for k in range(0, 64) for d in (-1, 0, 1) for s in (1, -1) if -2 ** 63 <= s * (2 ** k + d) < 2 ** 63})
    floats = [0.0, -0.0, 1.5, -1.5, 1 / 3, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), 2.0 ** 53, -2.0 ** 63, 1e-7]
    byts = [b"", b"\0", b"abc\xff", bytes(range(256))] + [b"y" * n for n in (7, 8, 9, 62, 63, 64, 65, 255, 256, 4095, 4096, 4097, 9000)]
    dates = [D.date(y, m, d) for y in (1, 1969, 1970, 2000, 2020, 9999) for m, d in ((1, 1), (2, 28), (12, 31))]
    stamps = [D.datetime(y, m, d, h, mi, s, us) for y, m, d in ((1, 1, 1), (1970, 1, 1), (2020, 2, 29), (9999, 12, 31))
              for h, mi, s, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (12, 30, 15, 1))]
    zones = [tz(h) for h in range(-12, 15)] + [tz(5, 30), tz(5, 45), tz(-3, -30), tz(0, 1), tz(-9, -30), tz(12, 45), tz(23, 59), tz(-23, -59)]
    aware = [D.datetime(2020, 2, 29, 23, 59, 58, 999000, z) for z in zones] + [D.datetime(9999, 12, 31, 0, 0, 0, 1000, tz(0)), D.datetime(1, 1, 1, 12, 0, 0, 0, tz(0))]
    times = [D.time(h, m, s, us) for h, m, s, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (12, 30, 0, 5))] + [D.time(1, 2, 3, 4, z) for z in zones]
    decs = [Decimal(t) for t in ("0", "1", "-1", "0.1", "-0.1", "1.10", "123456789.12345678", "99999999999999999", "-99999999999999999", "1E-30", "1E-63", "0E-5",
                                 "-123.456", "1E+2", "5E+3", "-7E+15", "0.00000000000000001")]
    return [("None", None), ("True", True), ("False", False)] + [(f"{type(v).__name__} #{i}", v)
                                                                 for g in (ints, floats, texts(), byts, dates, stamps, aware, times, decs) for i, v in enumerate(g)]


REJECTED = [2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 200, 1j, object(), range(3), D.timedelta(1), Decimal("NaN"), Decimal("Infinity"), Decimal("1E+30"), Decimal("1E-70"),
            Decimal("123456789012345678"), D.datetime(2020, 1, 1, tzinfo=D.timezone(D.timedelta(seconds=90))), frozenset([1]), C9Color, len, Ellipsis, "\ud800"]
PLACES = ["init member", "later member", "list", "tuple", "dict value", "dict key", "set", "nested", "two members"]


def same_value(a, b):
    """Equal, of the same type and with the same representation (which tells -0.0 and timezones)."""
    if type(a).__name__ == "Decimal":
        return type(b) is type(a) and a == b
    return type(a) is type(b) and a == b and repr(a) == repr(b)


@db0.memo
class V9:
    def __init__(self, *v):
        if len(v) > 0:
            self.v = v[0]
        if len(v) > 1:
            self.w = v[1]


@db0.memo(singleton=True)
class V9Root:
    def __init__(self):
        self.places = {}


def fill(place, vals):
    if place == "init member":
        return [V9(v) for v in vals]
    if place == "two members":
        return [V9(v, w) for v, w in zip(vals, vals[1:] + vals[:1])]
    if place == "later member":
        res = [V9() for _ in vals]
        for o, v in zip(res, vals):
            o.v = "something else"
            o.v = v
        return res
    if place == "list":
        return vals
    if place == "tuple":
        return [(v, v) for v in vals]
    if place == "dict value":
        return {i: v for i, v in enumerate(vals)}
    if place == "dict key":
        return [{v: 1} for v in vals]
    if place == "set":
        return [{v} for v in vals]
    if place == "nested":
        return [{"k": [(v, [v])]} for v in vals]


def get(place, c, i):
    if place in ("init member", "later member"):
        return [c[i].v]
    if place == "two members":
        return [c[i].v, c[i - 1].w]
    if place in ("list", "dict value"):
        return [c[i]]
    if place == "tuple":
        return [c[i][0], c[i][1]]
    if place in ("dict key", "set"):
        return list(c[i])
    return [c[i]["k"][0][0], c[i]["k"][0][1][0]]


def values(t, ctx):
    """Every value of the menu in one place: read live, after commit, with cleared caches, after re-opening; every lookup by it."""
    place = t["place"]
    items = menu()
    if "only" in t:
        items = [i for i in items if i[0] in t["only"]]
    names, vals = [n for n, _ in items], [v for _, v in items]
    d = ctx.scratch()
    S.start(d, "p")
    try:
        root = V9Root()
        root.places[place] = fill(place, vals)
        for where in ("live", "after commit", "after clearing the caches", "after re-opening"):
            if where != "live":
                root = None
                db0.commit()
                if where == "after clearing the caches":
                    db0.clear_cache()
                if where == "after re-opening":
                    S.restart(d, "p", "r")
            root = V9Root()
            c = root.places[place]
            for i, v in enumerate(vals):
                got = get(place, c, i)
                ctx.count("values")
                if not all(same_value(v, g) for g in got) or not got:
                    ctx.fail({"place": place, "only": [names[i], names[0]] if place == "two members" else [names[i]]}, f"a value is stored incorrectly in a {place}",
                             f"{where}: {repr(v)[:120]} ({type(v).__name__}) reads as {repr(got)[:200]}")
                elif place in ("dict key", "set") and not (v in c[i] and (place == "set" or c[i][v] == 1)):
                    ctx.fail({"place": place, "only": [names[i]]}, f"a value is not found in a {place}", f"{where}: {repr(v)[:120]}")
                elif place == "tuple" and (c[i].count(v) != 2 or c[i].index(v) != 0):
                    ctx.fail({"place": place, "only": [names[i]]}, "a value is not found in a tuple", f"{where}: {repr(v)[:120]}")
            c = None
        ctx.state(("values", place))
        ctx.count("histories")
    finally:
        root = c = None
        S.stop()
        ctx.drop(d)


def rejected(t, ctx):
    """Values that cannot be stored are refused and leave the object as it was."""
    d = ctx.scratch()
    S.start(d, "p")
    try:
        for i, v in enumerate(REJECTED):
            for place in ("init member", "later member", "list", "append", "tuple", "dict value", "dict key", "set", "set add"):
                if "only" in t and t["only"] != [i, place]:
                    continue
                o = V9(1, [5])
                dd, ss = db0.dict({1: 2}), db0.set([1])
                ctx.count("values")
                try:
                    r = None
                    if place == "init member":
                        r = V9(v)
                        r = r.v
                    elif place == "later member":
                        o.v = v
                        r = o.v
                    elif place == "list":
                        r = db0.list([1, v])
                        r = r[1]
                    elif place == "append":
                        o.w.append(v)
                        r = o.w[1]
                    elif place == "tuple":
                        r = db0.tuple([v])
                        r = r[0]
                    elif place == "dict value":
                        dd[2] = v
                        r = dd[2]
                    elif place == "dict key":
                        dd[v] = 1
                        r = [k for k in dd if k != 1][0]
                    elif place == "set":
                        r = db0.set([v])
                        r = list(r)[0]
                    else:
                        ss.add(v)
                        r = [k for k in ss if k != 1][0]
                    # Python functions and types are stored by reference; anything else must read back as the same value
                    if not (r is v or type(r) is type(v) and r == v):
                        ctx.fail({"rejected": 1, "only": [i, place]}, "an unsupported value is accepted and changed", f"{place}: {v!r} reads as {r!r}")
                except Exception:
                    if [norm(o.v), norm(o.w), norm(dd), norm(ss)] != [norm(1), norm([5]), norm({1: 2}), norm({1})]:
                        ctx.fail({"rejected": 1, "only": [i, place]}, "a rejected value changes the object",
                                 f"{place}: {v!r}: members {norm(o.v)}, {norm(o.w)}, dict {norm(dd)}, set {norm(ss)}")
        ctx.count("histories")
    finally:
        o = dd = ss = r = None
        S.stop()
        ctx.drop(d)


def ops_for(names, vals, extra=()):
    return [f"{n}={v}" for n in names for v in vals] + [f"del {n}" for n in names] + list(extra)


def plan(tier):
    starts = [s for s in STARTS if s not in CTORS]
    ctors = [s for s in CTORS if tier != "quick" or not s.startswith("ctor 4")]
    wide = [o for o in OPS if o[0] == "w" or o.startswith("del w")]
    res = [{"place": p} for p in PLACES] + [{"rejected": 1}]
    every = ops_for(["a", "c"], list(VALUES), ["a=object()", "c=object()", "a.append", "c.append", "a+=1", "a=a", "c=c", "a=b", "swap a b"])
    core = ops_for(["a", "b", "c", "d"], ["7", "None", "E0"])
    res += dyn_plan(tier)
    res += coll.tasks(KIND, 1, ctors, ["none"] if tier == "quick" else ["none", "clear"], ["nop"], batch=900)
    if tier == "quick":
        res += coll.tasks(KIND, 2, starts, ["none"], every, batch=900)
        res += coll.tasks(KIND, 2, ["free", "free a=1", "free d,c,b,a", "fixed"], ["clear", "reopen"], ops_for(["a", "c"], SMALL, ["a.append"]), batch=900)
        res += coll.tasks(KIND, 3, ["free", "free b=None", "free a=E0,c='s'", "fixed a=[E0]"], ["mixed"], ops_for(["a", "b", "c"], ["7", "None", "E0"]), batch=900)
        res += coll.tasks(KIND, 2, ["wide"], ["none", "clear"], wide, batch=600)
    else:
        res += coll.tasks(KIND, 2, starts, ["none", "clear", "reopen", "handles", "mixed"], every, batch=900)
        res += coll.tasks(KIND, 3, starts, ["none", "mixed"], ops_for(["a", "c"], SMALL, ["a.append", "swap a b"]), batch=1500)
        res += coll.tasks(KIND, 4, ["free", "free b=None", "fixed"], ["none", "mixed"], ops_for(["a", "b", "c"], ["7", "None", "E0"]), batch=2500)
        res += coll.tasks(KIND, 3, ["free d,c,b,a", "free a twice", "free a deleted"], ["none", "clear", "reopen"], core, batch=1500)
        res += coll.tasks(KIND, 2, ["wide"], ["none", "clear", "reopen", "handles", "mixed"], wide, batch=600)
    return res


def run_task(t, ctx):
    if "place" in t:
        ctx.begin(t)
        values(t, ctx)
    elif "rejected" in t:
        ctx.begin(t)
        rejected(t, ctx)
    else:
        coll.run_task(KIND_DYN if t["kind"] == "dyn" else KIND, t, ctx)
