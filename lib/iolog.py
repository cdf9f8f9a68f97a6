"""Records what a process does to a prefix file at system-call level, and rebuilds every state a crash can leave.

record() runs a script under strace and returns, in order, the writes / truncations / syncs of the prefix file and the
markers the script wrote.  crash_states() enumerates the file contents that a crash can leave behind:
  prefix   the process dies between two system calls: every prefix of the write sequence
  torn     the last write of a prefix got cut at a SECTOR boundary
  lost     power loss: of the writes issued after the last completed fsync an arbitrary subset reached the disk
"""
import itertools, os, re, subprocess, sys

SECTOR = 512
CALLS = "openat,open,creat,lseek,read,write,pread64,pwrite64,writev,pwritev,fsync,fdatasync,ftruncate,close,rename,unlink"
_hex = re.compile(r"\\x([0-9a-f]{2})")


def unhex(s):
    return bytes.fromhex(s.replace("\\x", ""))


def record(argv, prefix_paths, mark_path, env, workdir, timeout=120):
    """→ one event list per "history" marker: ("w", offset, data) ("trunc", n) ("sync",) ("mark", text)"""
    out = os.path.join(workdir, "strace.out")
    cmd = ["strace", "-f", "--seccomp-bpf", "-xx", "-s", "40000000", "-o", out, "-e", "trace=" + CALLS, "-e", "signal=none", *argv]
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if r.returncode != 0:
        raise RuntimeError(f"recording failed rc={r.returncode}: {r.stderr[-1500:].decode(errors='replace')}")
    ev = parse(out, set(prefix_paths), mark_path)
    os.unlink(out)
    res = []
    for e in ev:
        if e[0] == "mark" and e[1].startswith("history"):
            res.append([])
        elif res:
            res[-1].append(e)
    return res


def parse(path, prefix_paths, mark_path):
    pend, fds, ev = {}, {}, []
    tail_re = re.compile(r"\) += (-?\w+)[^\"]*$")
    line_re = re.compile(r"^(\d+) +(.*)$")
    for line in open(path, errors="replace"):
        m = line_re.match(line.rstrip("\n"))
        if not m:
            continue
        pid, body = m.groups()
        if body.endswith("<unfinished ...>"):
            pend[pid] = body[:-len("<unfinished ...>")].rstrip()
            continue
        if body.startswith("<... "):
            body = pend.pop(pid, "") + body[body.index("resumed>") + len("resumed>"):]
        t = tail_re.search(body, max(0, len(body) - 200))
        p = body.find("(")
        if not t or p < 0:
            continue
        call, ret = body[:p], t.group(1)
        args = body[p + 1:t.start()]
        try:
            ret = int(ret, 0)
        except ValueError:
            continue
        if call in ("openat", "open", "creat"):
            q = args.index('"')
            name = unhex(args[q + 1:args.index('"', q + 1)]).decode(errors="replace")
            if ret >= 0 and (name in prefix_paths or name == mark_path):
                fds[ret] = [name, 0, "O_APPEND" in args]
                if name != mark_path and ("O_TRUNC" in args or call == "creat"):
                    ev.append(("trunc", 0))
            elif ret >= 0:
                fds.pop(ret, None)
            continue
        a = args.split(",", 1)
        try:
            fd = int(a[0])
        except ValueError:
            continue
        f = fds.get(fd)
        if f is None:
            continue
        if call == "close":
            fds.pop(fd, None)
        elif ret < 0:
            continue
        elif call == "lseek":
            f[1] = ret
        elif call == "read":
            f[1] += ret
        elif call in ("write", "pwrite64"):
            q = args.index('"')
            e = args.index('"', q + 1)
            data = unhex(args[q + 1:e])[:ret]
            if f[0] == mark_path:
                ev.append(("mark", data.decode()))
                continue
            if call == "pwrite64":
                off = int(args.rsplit(",", 1)[1])
            else:
                off = -1 if f[2] else f[1]
                f[1] += ret
            ev.append(("w", off, data))
        elif call in ("writev", "pwritev"):
            data = b"".join(unhex(x) for x in re.findall(r'iov_base="([^"]*)"', args))[:ret]
            if f[0] == mark_path:
                ev.append(("mark", data.decode()))
                continue
            if call == "pwritev":
                off = int(args.rsplit(",", 1)[1])
            else:
                off = -1 if f[2] else f[1]
                f[1] += ret
            ev.append(("w", off, data))
        elif call in ("fsync", "fdatasync") and f[0] != mark_path:
            ev.append(("sync",))
        elif call == "ftruncate" and f[0] != mark_path:
            ev.append(("trunc", int(a[1])))
    return ev


def apply(buf, e):
    if e[0] == "trunc":
        n = e[1]
        if len(buf) > n:
            del buf[n:]
        else:
            buf.extend(b"\0" * (n - len(buf)))
    elif e[0] == "w":
        off = len(buf) if e[1] < 0 else e[1]
        if len(buf) < off:
            buf.extend(b"\0" * (off - len(buf)))
        buf[off:off + len(e[2])] = e[2]


def crash_states(base, events, torn=True, lost=True, max_subset=6):
    """Yields (label, content, acked, started): distinct file contents, the number of completed and of begun commits.

    torn: True cuts every write but the commit record (what is written after the first fsync of a commit), "record" only that.
    """
    io = []                              # (event, acked, started)
    acked = started = 0
    for e in events:
        if e[0] == "mark":
            if e[1].startswith("begin"):
                started += 1
            elif e[1].startswith("end"):
                acked += 1
            io.append((("nop",), acked, started))
        else:
            io.append((e, acked, started))
    seen = {}

    def emit(label, buf, acked, started):
        key = (hash(bytes(buf)), acked, started)
        if key in seen:
            return None
        seen[key] = 1
        return label, bytes(buf), acked, started

    buf = bytearray(base)
    synced = bytearray(base)             # what a power loss keeps for certain
    unsynced = []
    in_record = False
    for i, (e, acked, started) in enumerate(io):
        if e[0] == "nop":
            in_record = False
        elif e[0] == "sync":
            in_record = True
            synced = bytearray(buf)
            unsynced = []
        elif e[0] in ("w", "trunc"):
            if torn and e[0] == "w" and e[1] >= 0 and len(e[2]) > SECTOR and (torn == "record") == in_record:
                first = SECTOR - e[1] % SECTOR
                cuts = list(range(first, len(e[2]), SECTOR))
                if len(cuts) > 8:
                    cuts = cuts[:3] + cuts[len(cuts) // 2:len(cuts) // 2 + 2] + cuts[-3:]
                for c in cuts:
                    b = bytearray(buf)
                    apply(b, ("w", e[1], e[2][:c]))
                    x = emit(f"write {i} to {e[1]} torn at {c}", b, acked, started)
                    if x:
                        yield x
            apply(buf, e)
            unsynced.append(e)
        x = emit(f"prefix {i}", buf, acked, started)
        if x:
            yield x
        if lost and e[0] in ("w", "trunc"):
            n = len(unsynced)
            # every subset of a short epoch that contains the newest write; of a long one those within two of all / of one
            if n <= max_subset:
                subs = [s for k in range(0, n) for s in itertools.combinations(range(n), k)]
            else:
                full = tuple(range(n))
                subs = [()] + [(j,) for j in range(n)] + [full[:j] + full[j + 1:] for j in range(n)]
            for s in subs:
                b = bytearray(synced)
                for j in s:
                    apply(b, unsynced[j])
                x = emit(f"event {i}, of {n} unsynced writes kept {list(s) if len(s) <= n // 2 else 'all but ' + str([j for j in range(n) if j not in s])}",
                         b, acked, started)
                if x:
                    yield x
