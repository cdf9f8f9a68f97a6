"""Runs one history with commit markers; executed under strace by check C02 (and C05 to obtain the writer's log)."""
import json, os, sys
import dbzero as db0
import world as W, session as S

spec = json.load(open(sys.argv[1]))
mark = os.open(spec["mark"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)


def tell(s):
    os.write(mark, s.encode())


for h in spec["histories"]:
    tell("history")
    S.start(h["dir"], W.PX, "rw")
    r = db0.fetch(W.Root)
    m = W.new_model()
    W.model_only(m, h["base_ops"])
    for txn in h["txns"]:
        W.run_txn(r, m, txn)
        tell("begin")
        db0.commit()
        tell("end")
    if h.get("close"):
        # an uncommitted change is persisted by close(): a commit of its own
        W.run_txn(r, m, h["close"])
        r = None
        tell("begin")
        S.stop()
        tell("end")
    else:
        tell("stop")
        r = None
        S.stop()
