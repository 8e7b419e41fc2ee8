"""The simulated disk: a process that crashes at a chosen file operation, and
what a power loss leaves behind of the operations it had issued.

Power-loss model (journalling file system, metadata in order):
  * fsync of a file makes its data and every earlier metadata operation durable;
  * fsync of a directory makes every earlier metadata operation durable;
  * of the later metadata operations (create, truncate, rename, unlink, link)
    any prefix survives;
  * of the later data of a file any page-granular prefix survives.
"""
from __future__ import annotations

import os
import pickle
import shutil
import signal
import sys
import time
import traceback

from . import shim
from .core import HarnessError, Violation

CRASHED = 77
PAGE = 4096


def plan_items(fault):
    """The shim plan for one scenario fault."""
    if not fault:
        return []
    k = fault["kind"]
    n, arg = int(fault["n"]), int(fault.get("arg", 0))
    act = {"crash": "crash", "power": "crash", "torn": "torn", "powertorn": "torn", "err": "err",
           "errfrom": "errfrom", "short": "short", "interrupt": "hook", "readerr": "err",
           "readshort": "short", "rival": "hook"}[k]
    return [("r" if k.startswith("read") else "m", n, act, arg)]


def spawn(fn, root, fault=None, timeout=60.0, hook=None):
    """Run fn(report) in a forked process whose file operations under `root`
    go through the shim.  hook(fault) is the act of another process just before
    the operation a "rival" fault names.  Returns (messages, exit status, operation log)."""
    rfd, wfd = os.pipe()
    logpath = os.path.join(os.path.dirname(os.path.realpath(root)), f".oplog{os.getpid()}")
    logfd = os.open(logpath, os.O_RDWR | os.O_CREAT | os.O_TRUNC, 0o600)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            os.close(rfd)

            def report(*msg):
                blob = pickle.dumps(msg)
                os.write(wfd, len(blob).to_bytes(4, "big") + blob)

            if fault and fault["kind"] == "interrupt":
                shim.interrupt_hook()
            elif fault and fault["kind"] == "rival":
                keep = shim.set_hook(lambda idx, what, path: hook(fault))
            shim.arm(root, plan_items(fault), logfd)
            try:
                fn(report)
                code = 0
            finally:
                got = shim.disarm()
                report("ops", got["mops"], got["rops"], got["fired"])
        except BaseException as e:
            from .engine import _from_sut, _where
            code = 3
            if isinstance(e, KeyboardInterrupt) and fault and fault["kind"] == "interrupt":
                code = CRASHED   # Ctrl-C that arrived after the operation: ends the process
            elif isinstance(e, Violation):
                report("violation", e.kind, e.detail)
            elif _from_sut(e):
                report("violation", "unexpected-exception", f"{type(e).__name__}: {str(e)[:500]} @ {_where(e)}")
            else:
                report("crashed-harness", traceback.format_exc())
        finally:
            os._exit(code)
    os.close(wfd)
    data = b""
    import select
    deadline = time.monotonic() + timeout
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            hung = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if ready:
            chunk = os.read(rfd, 1 << 16)
            if not chunk:
                break
            data += chunk
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    log = os.pread(logfd, os.fstat(logfd).st_size, 0)
    os.close(logfd)
    os.unlink(logpath)
    msgs = []
    while len(data) >= 4:
        n = int.from_bytes(data[:4], "big")
        if len(data) < 4 + n:
            break
        msgs.append(pickle.loads(data[4:4 + n]))
        data = data[4 + n:]
    if hung:
        raise HarnessError("spawned process made no progress")
    for m in msgs:
        if m[0] == "crashed-harness":
            raise HarnessError(m[1])
        if m[0] == "violation":
            raise Violation(m[1], m[2])
    return msgs, code, parse_log(log)


def parse_log(blob):
    out, i = [], 0
    while i < len(blob):
        j = blob.find(b"\n", i)
        if j < 0:
            break
        op, off, n, p, q = blob[i:j].decode().split("\t")
        i = j + 1
        data = b""
        if op == "write":
            data = blob[i:i + int(n)]
            i += int(n) + 1
        out.append((op, int(off), data, p, q))
    return out


def snapshot(root):
    """{relative path: bytes or ('link', target)} of a directory tree."""
    out = {}
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                out[rel] = ("link", os.readlink(p))
            else:
                with open(p, "rb") as fh:
                    out[rel] = fh.read()
    return out


def restore(root, files):
    for name in os.listdir(root):
        p = os.path.join(root, name)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    for rel, data in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, tuple):
            os.symlink(data[1], p)
        else:
            with open(p, "wb") as fh:
                fh.write(data)


def power_loss(root, before, log, r):
    """Replace the tree under root by one that a power loss may leave.

    before: the (durable) tree when the process started; log: its operations.
    """
    root = os.path.realpath(root)

    def rel(p):
        return os.path.relpath(os.path.realpath(os.path.dirname(p)) + "/" + os.path.basename(p), root)

    # resolve names to inodes along the true history
    inode_of, data0, writes, links = {}, {}, {}, {}
    nid = 0
    for name, data in before.items():
        if isinstance(data, tuple):
            links[name] = data
            continue
        inode_of[name] = nid
        data0[nid] = data
        nid += 1
    now = dict(inode_of)
    opened = {}
    meta = []          # (index, op, ...)
    sync_meta = -1     # metadata durable up to here
    data_sync = {}     # inode -> index
    for i, (op, off, data, p, q) in enumerate(log):
        if op == "crash":
            continue
        a = rel(p)
        if a in links:  # follow the link
            a = os.path.normpath(os.path.join(os.path.dirname(a), links[a][1]))
        if op == "create":
            now[a] = nid
            data0[nid] = b""
            opened[a] = nid
            meta.append((i, "create", a, nid))
            nid += 1
        elif op == "trunc":
            opened[a] = now[a]
            meta.append((i, "trunc", now[a], 0))
            writes.setdefault(now[a], []).append((i, None, 0))
        elif op == "ftrunc":
            ino = opened.get(a, now.get(a))
            meta.append((i, "trunc", ino, off))
            writes.setdefault(ino, []).append((i, None, off))
        elif op == "write":
            ino = opened.get(a, now.get(a))
            writes.setdefault(ino, []).append((i, data, off))
        elif op == "fsync":
            ino = opened.get(a, now.get(a))
            sync_meta = i
            if ino is not None:
                data_sync[ino] = i
        elif op == "rename":
            b = rel(q)
            meta.append((i, "rename", a, b))
            if a in now:
                now[b] = now.pop(a)
            opened.pop(b, None)
        elif op == "unlink":
            meta.append((i, "unlink", a, None))
            now.pop(a, None)
        elif op == "link":
            b = rel(q)
            meta.append((i, "link", a, b))
            now[b] = now.get(a)
    loose = [m for m in meta if m[0] > sync_meta]
    keep = r.randint(0, len(loose))
    cut = sync_meta if keep == 0 else loose[keep - 1][0]
    mode = r.choice(["all", "none", "some"])
    # contents
    def content(ino):
        buf = bytearray(data0[ino])
        done = data_sync.get(ino, -1)
        for i, data, off in writes.get(ino, []):
            if data is None:
                if i <= cut or i <= done:
                    del buf[off:]
                    buf.extend(b"\0" * (off - len(buf)))
                continue
            if i > done:
                if mode == "none" or (mode == "some" and r.random() < 0.4):
                    break
                if mode == "some" and r.random() < 0.5:
                    data = data[:r.randint(0, len(data) // PAGE) * PAGE]
            if len(buf) < off:
                buf.extend(b"\0" * (off - len(buf)))
            buf[off:off + len(data)] = data
        return bytes(buf)

    names = dict(inode_of)
    for i, op, x, y in meta:
        if i > cut:
            break
        if op == "create":
            names[x] = y
        elif op == "rename" and x in names:
            names[y] = names.pop(x)
        elif op == "unlink":
            names.pop(x, None)
        elif op == "link" and x in names:
            names[y] = names[x]
    # by age, not by name: temporary names are random
    files = {n: content(i) for n, i in sorted(names.items(), key=lambda x: x[1])}
    files.update(links)
    restore(root, files)
    return len(loose) - keep, mode


FAULTS = ["crash", "crash", "torn", "power", "power", "powertorn", "err", "errfrom", "short",
          "interrupt"]


def gen_fault(r, nops, kinds=FAULTS):
    kind = r.choice(kinds)
    f = {"kind": kind, "n": r.randint(1, max(1, nops))}
    if kind in ("err", "errfrom"):
        f["arg"] = r.choice([28, 5, 122, 30])
    elif kind in ("torn", "powertorn", "short"):
        f["arg"] = r.randint(0, 999)
    elif kind == "readerr":
        f["arg"] = r.choice([5, 13, 116])
    elif kind == "readshort":
        f["arg"] = r.randint(0, 999)
    if kind.startswith("power"):
        f["salt"] = r.randrange(2 ** 30)
    return f


def crashed(fault, code):
    """Did the process end by the injected crash?  Anything else unexpected raises."""
    if code == CRASHED:
        return True
    if code != 0:
        raise HarnessError(f"spawned process ended with {code}")
    return False
