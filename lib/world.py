"""A small application over every kind of dbzero object, with a plain-Python reference model of it.

A *world* is one prefix holding a singleton Root that owns a scalar slot, every collection type, named Kid objects with
attributes and tags, an index over the kids and a weak set.  `OPS` is the alphabet of mutations: each changes the
real objects through the public API and the model (a plain dict) in step.  `observe()` reads the complete observable
state back through the public API - live or from a snapshot - in the shape of `expect()`.
"""
import copy, datetime as dt, decimal, uuid as _uuid
import dbzero as db0

PX = "world"


@db0.enum(values=["RED", "GREEN", "BLUE"])
class Color:
    pass


@db0.memo
class Kid:
    def __init__(self, name, v=None):
        self.name = name
        self.v = v
        self.items = []


@db0.memo
class SubKid(Kid):
    def __init__(self, name, v=None):
        super().__init__(name, v)
        self.extra = name * 2


@db0.memo(singleton=True)
class Root:
    def __init__(self):
        self.n = 0
        self.s = "init"
        self.lst = []
        self.dct = {}
        self.st = set()
        self.tup = ()
        self.ba = db0.bytearray(b"ab")
        self.idx = db0.index()
        self.kids = {}
        self.ref = None
        self.ws = db0.weak_set() if hasattr(db0, "weak_set") else None


LONG = "x" * 5000
VALUES = [0, -5, 2 ** 40, True, None, 1.5, "txt", LONG, b"by\0tes", dt.date(2024, 2, 29), dt.datetime(2024, 5, 6, 7, 8, 9, 1000),
          dt.time(1, 2, 3), decimal.Decimal("12.345"), (1, "t", None), [1, [2, "z"]], {"k": (1, 2), 3: "v"}, {1, "s"},
          dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc), "GREEN"]


def val(i):
    v = VALUES[i]
    return Color.GREEN if v == "GREEN" else copy.deepcopy(v)


def norm(x):
    """A db0 value or a plain Python value as a plain, comparable Python value (types kept apart)."""
    c = x.__class__
    if c is int or c is str or c is bytes or x is None:
        return x
    t = c.__name__
    if isinstance(x, (str, bytes)):
        return x
    if isinstance(x, bool):
        return ("bool", x)
    if isinstance(x, int):
        return x
    if isinstance(x, float):
        return ("float", x)
    if isinstance(x, (dt.date, dt.time, dt.datetime)):
        return (t, x.isoformat())
    if isinstance(x, decimal.Decimal):
        return ("dec", str(x.normalize()))
    if isinstance(x, (list, )) or t == "List":
        return ["L"] + [norm(i) for i in x]
    if isinstance(x, tuple) or t == "Tuple":
        return ("T",) + tuple(norm(x[i]) for i in range(len(x)))
    if isinstance(x, (set, frozenset)) or t == "Set":
        return ["S"] + sorted((norm(i) for i in x), key=repr)
    if isinstance(x, dict) or t == "Dict":
        return ["D"] + sorted(((norm(k), norm(v)) for k, v in x.items()), key=repr)
    if isinstance(x, bytearray) or t == "ByteArray":
        return ("BA", bytes(x[i] for i in range(len(x))))
    if x is Color.GREEN or str(x) == "GREEN":
        return ("enum", str(x))
    if hasattr(type(x), "__memo_kid__"):
        return ("kid", x.name)
    if isinstance(x, (Kid, SubKid)):
        return ("kid", x.name)
    return (t, repr(x))


class Lookup:
    """Live access, in the shape of a snapshot."""
    fetch = staticmethod(db0.fetch)
    find = staticmethod(db0.find)


def new_model():
    return {"n": 0, "s": "init", "lst": [], "dct": {}, "st": set(), "tup": (), "ba": b"ab", "kids": {}, "idx": {}, "ref": None,
            "dyn": None}


def create():
    return Root()


# -- alphabet ------------------------------------------------------------------------------------------------------
OPS = {}


def op(name, needs=lambda m: True):
    def deco(f):
        OPS[name] = (needs, f)
        return f
    return deco


def has(k):
    return lambda m: k in m["kids"]


def _scalar(i):
    def f(r, m):
        r.n = val(i)
        m["n"] = val(i)
    op(f"n={i}")(f)


for _i in range(len(VALUES)):
    _scalar(_i)


@op("s+")
def _(r, m):
    r.s = r.s + "+" * 40
    m["s"] = m["s"] + "+" * 40


@op("dyn=")
def _(r, m):
    r.dyn = (m["dyn"] or 0) + 1
    m["dyn"] = (m["dyn"] or 0) + 1


@op("l+")
def _(r, m):
    x = len(m["lst"])
    r.lst.append(x)
    m["lst"].append(x)


@op("l+big")
def _(r, m):
    r.lst.extend(range(600))
    m["lst"].extend(range(600))


@op("l+nested")
def _(r, m):
    r.lst.append(["n", (1, 2)])
    m["lst"].append(["n", (1, 2)])


@op("l[0]=", lambda m: m["lst"])
def _(r, m):
    r.lst[0] = "head%d" % len(m["lst"])
    m["lst"][0] = "head%d" % len(m["lst"])


@op("l[mid]=", lambda m: len(m["lst"]) > 2)
def _(r, m):
    i = len(m["lst"]) // 2
    r.lst[i] = None
    m["lst"][i] = None


@op("l.pop", lambda m: m["lst"])
def _(r, m):
    r.lst.pop()
    m["lst"].pop()


@op("l.clear", lambda m: m["lst"])
def _(r, m):
    r.lst.clear()
    m["lst"].clear()


@op("d[k]=")
def _(r, m):
    v = "v%d" % len(m["dct"])
    r.dct["k"] = v
    m["dct"]["k"] = v


@op("d[new]=")
def _(r, m):
    k = ("t", len(m["dct"]))
    r.dct[k] = [len(m["dct"])]
    m["dct"][k] = [len(m["dct"])]


@op("d.big")
def _(r, m):
    for i in range(200):
        r.dct["b%d" % i] = i
        m["dct"]["b%d" % i] = i


@op("del d[k]", lambda m: "k" in m["dct"])
def _(r, m):
    del r.dct["k"]
    del m["dct"]["k"]


@op("d.clear", lambda m: m["dct"])
def _(r, m):
    r.dct.clear()
    m["dct"].clear()


@op("s.add")
def _(r, m):
    x = "e%d" % len(m["st"])
    r.st.add(x)
    m["st"].add(x)


@op("s.big")
def _(r, m):
    for i in range(200):
        r.st.add(i)
        m["st"].add(i)


@op("s.remove", lambda m: m["st"])
def _(r, m):
    x = sorted(m["st"], key=repr)[0]
    r.st.remove(x)
    m["st"].discard(x)


@op("tup=")
def _(r, m):
    t = tuple(range(len(m["tup"]) + 1)) + ("e",)
    r.tup = t
    m["tup"] = t


@op("ba+")
def _(r, m):
    x = len(m["ba"]) % 256
    r.ba.append(x)
    m["ba"] += bytes([x])


@op("ba[0]=", lambda m: m["ba"])
def _(r, m):
    x = (m["ba"][0] + 1) % 256
    r.ba[0] = x
    m["ba"] = bytes([x]) + m["ba"][1:]


def _kid_ops(k, cls):
    @op(f"{k}.new", lambda m: k not in m["kids"])
    def _(r, m):
        r.kids[k] = globals()[cls](k, 1)
        m["kids"][k] = {"v": 1, "items": [], "tags": set(), "sub": k == "B"}

    @op(f"{k}.v=", has(k))
    def _(r, m):
        r.kids[k].v = m["kids"][k]["v"] + 1
        m["kids"][k]["v"] += 1

    @op(f"{k}.items+", has(k))
    def _(r, m):
        r.kids[k].items.append("i")
        m["kids"][k]["items"].append("i")

    @op(f"{k}.tag a", has(k))
    def _(r, m):
        db0.tags(r.kids[k]).add("a")
        m["kids"][k]["tags"].add("a")

    @op(f"{k}.tag b", has(k))
    def _(r, m):
        db0.tags(r.kids[k]).add("b")
        m["kids"][k]["tags"].add("b")

    @op(f"{k}.untag a", lambda m: k in m["kids"] and "a" in m["kids"][k]["tags"])
    def _(r, m):
        db0.tags(r.kids[k]).remove("a")
        m["kids"][k]["tags"].discard("a")

    @op(f"{k}.idx+", lambda m: k in m["kids"] and k not in m["idx"])
    def _(r, m):
        key = 20 - 2 * m["kids"][k]["v"] + (k == "B")
        r.idx.add(key, r.kids[k])
        m["idx"][k] = key

    @op(f"{k}.idx-", lambda m: k in m["idx"])
    def _(r, m):
        r.idx.remove(m["idx"][k], r.kids[k])
        del m["idx"][k]

    @op(f"{k}.ref", has(k))
    def _(r, m):
        r.ref = r.kids[k]
        m["ref"] = k

    @op(f"{k}.drop", lambda m: k in m["kids"] and k not in m["idx"])
    def _(r, m):
        # tags keep an object alive: they go first
        for t in sorted(m["kids"][k]["tags"]):
            db0.tags(r.kids[k]).remove(t)
        if m["ref"] == k:
            r.ref = None
            m["ref"] = None
        del r.kids[k]
        del m["kids"][k]


_kid_ops("A", "Kid")
_kid_ops("B", "SubKid")


# -- observation ---------------------------------------------------------------------------------------------------
def observe(api=Lookup, root=None):
    r = api.fetch(Root) if root is None else root
    kids = {}
    for k, o in r.kids.items():
        kids[k] = {"name": o.name, "v": o.v, "items": norm(o.items), "sub": isinstance(o, SubKid)}
        if isinstance(o, SubKid):
            kids[k]["extra"] = o.extra
    out = {"n": norm(r.n), "s": r.s, "lst": norm(r.lst), "dct": norm(r.dct), "st": norm(r.st), "tup": norm(r.tup), "ba": norm(r.ba)[1],
           "kids": kids, "ref": None if r.ref is None else r.ref.name, "dyn": getattr(r, "dyn", None),
           "len": [len(r.lst), len(r.dct), len(r.st), len(r.tup), len(r.ba), len(r.kids)]}
    for t in "ab":
        out["find " + t] = sorted(o.name for o in api.find(Kid, t))
    out["find a&b"] = sorted(o.name for o in api.find("a", "b"))
    out["find a|b"] = sorted(o.name for o in api.find(["a", "b"]))
    out["find SubKid a"] = sorted(o.name for o in api.find(SubKid, "a"))
    out["idx"] = sorted(o.name for o in api.find(r.idx.select(None, None)))
    out["idx sorted"] = [o.name for o in r.idx.sort(api.find(r.idx.select(None, None)))]
    return out


def expect(m):
    kids = {}
    for k, o in m["kids"].items():
        kids[k] = {"name": k, "v": o["v"], "items": norm(o["items"]), "sub": o["sub"]}
        if o["sub"]:
            kids[k]["extra"] = k * 2
    out = {"n": norm(m["n"]), "s": m["s"], "lst": norm(m["lst"]), "dct": norm(m["dct"]), "st": norm(m["st"]), "tup": norm(m["tup"]),
           "ba": m["ba"], "kids": kids, "ref": m["ref"], "dyn": m["dyn"],
           "len": [len(m["lst"]), len(m["dct"]), len(m["st"]), len(m["tup"]), len(m["ba"]), len(m["kids"])]}

    def f(p):
        return sorted(k for k, o in m["kids"].items() if p(o))
    out["find a"] = f(lambda o: "a" in o["tags"])
    out["find b"] = f(lambda o: "b" in o["tags"])
    out["find a&b"] = f(lambda o: o["tags"] >= {"a", "b"})
    out["find a|b"] = f(lambda o: o["tags"])
    out["find SubKid a"] = f(lambda o: o["sub"] and "a" in o["tags"])
    out["idx"] = sorted(m["idx"])
    out["idx sorted"] = [k for k, _ in sorted(m["idx"].items(), key=lambda kv: kv[1])]
    return out


def diff(got, want):
    """Readable difference of two observations ('' when equal)."""
    if got == want:
        return ""
    ks = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
    return "; ".join(f"{k}: got {repr(got.get(k))[:160]} expected {repr(want.get(k))[:160]}" for k in ks)


def run_ops(root, model, names):
    """Applies the operations that are enabled; returns how many were."""
    n = 0
    for name in names:
        needs, f = OPS[name]
        if needs(model):
            f(root, model)
            n += 1
    return n


def clone(m):
    if isinstance(m, dict):
        return {k: clone(v) for k, v in m.items()}
    if isinstance(m, (list, tuple, set)):
        return type(m)(clone(v) for v in m)
    return m


class _Null:
    """Stands for the real objects when only the model is to be advanced."""
    def __getattr__(self, k):
        return self

    def __setattr__(self, k, v):
        pass

    def __call__(self, *a, **k):
        return self

    __getitem__ = __setitem__ = __delitem__ = __call__

    def __add__(self, o):
        return self


_NULL = _Null()


def model_only(m, names):
    global db0, Kid, SubKid
    real = db0, Kid, SubKid
    n = 0
    try:
        db0, Kid, SubKid = _NULL, _NULL, _NULL
        for name in names:
            needs, f = OPS[name]
            if needs(m):
                f(_NULL, m)
                n += 1
    finally:
        db0, Kid, SubKid = real
    return n


def run_txn(root, model, txn):
    """A transaction body: operation names, or ["atomic", ...] / ["cancel", ...] groups."""
    n = 0
    for x in txn:
        if isinstance(x, str):
            n += run_ops(root, model, [x])
        elif x[0] == "atomic":
            with db0.atomic():
                n += run_ops(root, model, x[1:])
        elif x[0] == "cancel":
            try:
                with db0.atomic():
                    n += run_ops(root, clone(model), x[1:])
                    raise Cancel()
            except Cancel:
                pass
    return n


class Cancel(Exception):
    pass
