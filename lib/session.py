"""Opening and closing dbzero inside one scratch directory of a worker."""
import gc
import dbzero as db0

SMALL_CACHE = 64 << 20          # the default (2 GiB) only makes init() slower


def start(d, px=None, mode="rw", autocommit=False, cache=SMALL_CACHE, **kw):
    db0.init(d, autocommit=autocommit, cache_size=cache, **kw)
    if px:
        db0.open(px, mode)


def stop():
    gc.collect()
    db0.close()
    gc.collect()


def restart(d, px, mode="rw", **kw):
    stop()
    start(d, px, mode, **kw)


def attempt(f):
    """("ok", value) or ("raised", type name) of one API call."""
    try:
        return "ok", f()
    except Exception as e:
        return "raised", type(e).__name__, str(e)[:200]
