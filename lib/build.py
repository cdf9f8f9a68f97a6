#!/usr/bin/env python3
"""Builds the code under check from /repo's *current* working tree into /verif/build.

  build/obj/**.o        one object per /repo/src/**.cpp (g++ -O1, assertions ON, no debug info)
  build/libdb0.a        all of them (for the C++ harnesses)
  build/site/dbzero/    the importable package: extension module + /repo/dbzero/dbzero/*.py
  build/bin/<harness>   the C++ harnesses of /verif/harness

Whether an object is up to date is decided by *content* (SHA-1 of the command line and of every file the compiler
read, from its .d file), never by time stamps, so a changed tree is always rebuilt and an unchanged one never is.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, sysconfig, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DB0_REPO", "/repo")
BUILD = os.environ.get("DB0_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
PYINC = "/usr/include/python3.12"
CXX = "g++"
BASE = ["-std=c++17", "-fPIC", "-O1", "-g0", "-D_GLIBCXX_ASSERTIONS=1", "-D_FILE_OFFSET_BITS=64", "-DENABLE_DEBUG_EXCEPTIONS=0",
        "-fno-omit-frame-pointer", "-w", "-pipe"]
INC = ["-I" + REPO, "-I" + SRC, "-I" + PYINC]
JOBS = os.cpu_count() or 8

_hash = {}


class BuildError(Exception):
    pass


def file_hash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def read_deps(d):
    try:
        t = open(d).read().replace("\\\n", " ")
    except OSError:
        return None
    parts = t.split(":", 1)
    if len(parts) != 2:
        return None
    # system headers are not part of the tree under check
    return [x for x in parts[1].split() if not x.startswith("/usr/")]


def stamp_of(cmd, deps):
    h = hashlib.sha1("\0".join(cmd).encode())
    for d in sorted(set(deps)):
        h.update(d.encode())
        h.update(file_hash(d).encode())
    return h.hexdigest()


def compile_one(src, obj, flags, log):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep, stamp = obj + ".d", obj + ".stamp"
    cmd = [CXX, *flags, "-MMD", "-MF", dep, "-c", src, "-o", obj]
    deps = read_deps(dep)
    if deps is not None and os.path.exists(obj) and os.path.exists(stamp):
        if open(stamp).read() == stamp_of(cmd, deps):
            return False
    for p in (stamp, obj):
        if os.path.exists(p):
            os.unlink(p)
    for attempt in range(3):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            break
        if r.returncode > 0 and "error:" in r.stdout and "Killed" not in r.stdout:
            break
        time.sleep(2)
    if r.returncode != 0:
        raise BuildError(f"{src}:\n{r.stdout[-4000:]}")
    with open(stamp, "w") as f:
        f.write(stamp_of(cmd, read_deps(dep)))
    log.append(src)
    return True


def parallel(jobs):
    with ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(*j) for j in jobs]
        errs, changed = [], False
        for f in fs:
            try:
                changed |= bool(f.result())
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))
        return changed


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + r.stdout[-4000:])


def sources():
    return sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))


def obj_of(src, sub="obj"):
    return os.path.join(BUILD, sub, os.path.relpath(src, SRC)) + ".o"


def link_stamp(out, inputs, cmd):
    h = hashlib.sha1("\0".join(cmd).encode())
    for o in inputs:
        try:
            h.update(open(o + ".stamp").read().encode())
        except OSError:
            h.update(o.encode())
    return h.hexdigest()


def up_to_date(out, st):
    return os.path.exists(out) and os.path.exists(out + ".stamp") and open(out + ".stamp").read() == st


def done(out, st):
    with open(out + ".stamp", "w") as f:
        f.write(st)


def build_objects(log):
    srcs = sources()
    # biggest first: the long compilations must not be the last ones to start
    srcs.sort(key=lambda s: -os.path.getsize(s))
    parallel([(compile_one, s, obj_of(s), [*BASE, *INC], log) for s in srcs])
    # an object whose source is gone must not be linked
    keep = {obj_of(s) for s in srcs}
    for o in glob.glob(BUILD + "/obj/**/*.o", recursive=True):
        if o not in keep:
            os.unlink(o)
    return sorted(keep)


def build_site(objs):
    site = os.path.join(BUILD, "site", "dbzero")
    os.makedirs(site, exist_ok=True)
    so = os.path.join(site, "dbzero.cpython-312-x86_64-linux-gnu.so")
    cmd = [CXX, "-shared", "-fuse-ld=gold", "-o", so]
    st = link_stamp(so, objs, cmd)
    if not up_to_date(so, st):
        tmp = so + ".tmp"
        run([CXX, "-shared", "-fuse-ld=gold", "-o", tmp, *objs, "-ldl", "-lm", "-lpthread"])
        os.replace(tmp, so)
        done(so, st)
    py = os.path.join(REPO, "dbzero", "dbzero")
    want = {f for f in os.listdir(py) if f.endswith((".py", ".pyi"))}
    for f in want:
        a, b = os.path.join(py, f), os.path.join(site, f)
        data = open(a, "rb").read()
        if not os.path.exists(b) or open(b, "rb").read() != data:
            open(b, "wb").write(data)
    for f in os.listdir(site):
        if f.endswith((".py", ".pyi")) and f not in want:
            os.unlink(os.path.join(site, f))
    return os.path.dirname(site)


def build_lib(objs):
    lib = os.path.join(BUILD, "libdb0.a")
    objs = [o for o in objs if not o.endswith("bindings/python/dbzero.cpp.o")]
    st = link_stamp(lib, objs, ["ar"])
    if not up_to_date(lib, st):
        if os.path.exists(lib):
            os.unlink(lib)
        run(["ar", "qcsT", lib, *objs])
        done(lib, st)
    return lib, st


def build_harness(name, lib, lib_st, log):
    src = os.path.join(VERIF, "harness", name + ".cpp")
    obj = os.path.join(BUILD, "hobj", name + ".o")
    out = os.path.join(BUILD, "bin", name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    # /repo/tests holds header-only helpers some of the project's own unit tests share
    compile_one(src, obj, [*BASE, *INC, "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "tests")], log)
    extra = []
    st = hashlib.sha1((lib_st + open(obj + ".stamp").read()).encode()).hexdigest()
    if not up_to_date(out, st):
        tmp = out + ".tmp"
        run([CXX, "-no-pie", "-fuse-ld=gold", "-o", tmp, obj, *extra, lib, "-lpython3.12", "-ldl", "-lm", "-lpthread"])
        os.replace(tmp, out)
        done(out, st)
    return out


def build(harnesses=(), site=True):
    """Returns {"site": dir, "bin": {name: path}, "compiled": [sources]}"""
    os.makedirs(BUILD, exist_ok=True)
    _hash.clear()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t0, log = time.time(), []
        objs = build_objects(log)
        res = {"bin": {}}
        if site:
            res["site"] = build_site(objs)
        if harnesses:
            lib, st = build_lib(objs)
            with ThreadPoolExecutor(JOBS) as ex:
                for n, p in zip(harnesses, ex.map(lambda n: build_harness(n, lib, st, log), harnesses)):
                    res["bin"][n] = p
        res["compiled"] = log
        res["build_s"] = round(time.time() - t0, 1)
        return res


if __name__ == "__main__":
    names = [os.path.basename(p)[:-4] for p in sorted(glob.glob(VERIF + "/harness/*.cpp"))]
    try:
        r = build(names)
    except BuildError as e:
        print("BUILD FAILED", e)
        sys.exit(2)
    print(f"built {len(r['compiled'])} files in {r['build_s']} s; harnesses: {', '.join(r['bin']) or '-'}")
