"""Reduce a failing batch to few histories: dd.py CHECK REPLAY.json [substring of the failure]   (debugging aid)"""
import glob, itertools, json, os, shutil, sys, tempfile, importlib
D = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [D + "/../lib", D + "/../checks", os.environ.get("DB0_SITE", D + "/../build/site")]
sys.argv[0] = "x"
M = importlib.import_module(sys.argv[1].lower())
d = json.load(open(sys.argv[2]))
want = sys.argv[3] if len(sys.argv) > 3 else d["signature"][:60]
t = d["case"]


class Ctx:
    def __init__(s): s.f = []; s.dirs = []
    def scratch(s):
        s.dirs.append(tempfile.mkdtemp(dir="/dev/shm", prefix="dd-")); return s.dirs[-1]
    def fail(s, c, a, b): s.f.append((c, a, b[:300]))
    def __getattr__(s, n): return lambda *a, **k: None


def run(seqs, show=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        if not show:
            n = os.open("/dev/null", os.O_WRONLY); os.dup2(n, 1); os.dup2(n, 2)
        c = Ctx()
        try:
            M.run_task({**{k: v for k, v in t.items() if k not in ("heads", "seqs")}, "pattern": P, "seqs": seqs}, c)
        except BaseException as e:
            c.f.append((None, "exception", repr(e)))
        os.write(w, json.dumps(c.f)[:60000].encode() if len(c.f) < 40 else json.dumps(c.f[:20]).encode())
        os._exit(0)
    os.close(w)
    b = b""
    while x := os.read(r, 65536):
        b += x
    st = os.waitpid(pid, 0)[1]
    for f in glob.glob("/dev/shm/dd-*"):
        shutil.rmtree(f, ignore_errors=True)
    if st & 127:
        return [(None, "crash", str(st))]
    return json.loads(b or "[]")


import coll
P = t.get("pattern") or coll.pattern_of(t["p"], t["depth"])
seqs = t.get("seqs") or [[s, list(h) + list(x)] for s, h in t["heads"] for x in itertools.product(t["alphabet"], repeat=t["depth"] - len(h))]
bad = lambda s: any(want.startswith("crash") and f[1] == "crash" or want in f[1] for f in run(s))
print("whole batch", len(seqs), bad(seqs), flush=True)
n = 2
while len(seqs) > 1:
    ch = max(1, len(seqs) // n)
    for i in range(0, len(seqs), ch):
        c = seqs[:i] + seqs[i + ch:]
        if c and bad(c):
            seqs = c; n = max(n - 1, 2); print(len(seqs), flush=True)
            break
    else:
        if ch == 1:
            break
        n = min(n * 2, len(seqs))
json.dump({"seqs": seqs, "pattern": P}, open("/tmp/dd.json", "w"))
for s in seqs:
    print(s)
for f in run(seqs, True):
    print(f[1:])
