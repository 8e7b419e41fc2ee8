"""input templates: nothing is overwritten that was not to be overwritten."""
from __future__ import annotations

import contextlib
import copy
import io
import os
import random

from ..core import HarnessError, Violation
from .. import disk

LEVEL = "exploration"
RUNS = {"quick": 6000, "thorough": 200000}
RULE = ("distinct event-log digests of runs in which a fault or another process hit a file operation of the "
        "template command, or an existing file was in its way")
REAL = ["kmcpy.cli.init (write_template, main) and kmcpy.cli.main", "Python file objects, libc calls up to the shim"]
STUB = ["disk below libc: crash, power loss, errors, short and torn writes (LD_PRELOAD shim and dst/disk.py)",
        "the other process: a seeded actor that creates the file just before a chosen file operation"]
ASSUMPTIONS = ["rename is atomic and metadata operations reach the disk in order (journalling file system)",
               "fsync that returned 0 made the data durable",
               "the other process acts between file-changing calls, not inside the kernel's execution of one"]
STATE_MEASURE = "distinct (target kind, force, entry point, operation hit, fault kind, outcome) tuples"
NEEDS_JIT = False

PATHS = ["input_template.yaml", "my.yaml", "a/b/c.yaml", "link.yaml", "dir/x.yaml", "~/home.yaml", "dir"]
CONTENT = ["", "my: settings\n", "# precious\n" * 700, None]
VIA = ["write_template", "init", "main"]


def warm(path):
    import kmcpy.cli.init  # noqa: F401
    import kmcpy.cli.main  # noqa: F401


def gen(r, tier, i):
    pre = {}
    for p in PATHS[:-1]:
        if r.random() < 0.35:
            pre[p] = r.choice(CONTENT[:3])
    cmds = []
    focus = r.choice(PATHS)
    for _ in range(r.choice([1, 1, 2, 3])):
        f = None
        x = r.random()
        if x < 0.45:
            f = {"kind": "rival", "n": r.choice([1, 1, 1, 2, 3, 4]), "text": r.randrange(3)}
        elif x < 0.9:
            f = disk.gen_fault(r, r.choice([2, 4, 8]))
        cmds.append({"path": focus if r.random() < 0.7 else r.choice(PATHS), "force": r.random() < 0.4,
                     "via": r.choice(VIA), "abs": r.random() < 0.4, "fault": f})
    return {"pre": pre, "cmds": cmds, "link": r.choice(["target", "dangling", "none"])}


def place(root, p):
    return os.path.join(root, p[2:] if p.startswith("~/") else p)


def real_name(root, p):
    """Where the bytes of a target live (links followed)."""
    return os.path.relpath(os.path.realpath(place(root, p)), os.path.realpath(root))


def call(report, root, c):
    from kmcpy.cli import init
    from kmcpy.cli import main as top
    os.chdir(root)
    os.environ["HOME"] = root
    arg = c["path"]
    if c["abs"] and not arg.startswith("~"):
        arg = os.path.join(root, arg)
    try:
        if c["via"] == "write_template":
            init.write_template(arg, force=c["force"])
        else:
            argv = (["init"] if c["via"] == "main" else []) + (["--force"] if c["force"] else [])
            if c["path"] != "input_template.yaml" or c["abs"]:
                argv += ["-o", arg]
            with contextlib.redirect_stdout(io.StringIO()):
                rc = (top if c["via"] == "main" else init).main(argv)
            if rc != 0:
                report("failed", f"status {rc}")
                return
    except (Exception, KeyboardInterrupt, SystemExit) as e:
        report("failed", type(e).__name__)
        return
    report("done")


def run(sc, ctx):
    from kmcpy.cli.init import build_template
    full = build_template().encode()
    if b"kmc:" not in full or b"structure_file" not in full:
        raise Violation("template-incomplete", "the template does not name the required inputs")
    root = os.path.join(ctx.scratch, "p")
    os.makedirs(os.path.join(root, "dir"))
    with open(os.path.join(root, "dir", "keep"), "w") as f:
        f.write("other file\n")
    for p, text in sorted(sc["pre"].items()):
        if p == "link.yaml":
            continue
        os.makedirs(os.path.dirname(place(root, p)), exist_ok=True)
        with open(place(root, p), "w") as f:
            f.write(text)
    if sc["link"] != "none":
        os.symlink("target.yaml", os.path.join(root, "link.yaml"))
        if sc["link"] == "target":
            with open(os.path.join(root, "target.yaml"), "w") as f:
                f.write(sc["pre"].get("link.yaml", "linked: file\n"))
    for k, c in enumerate(sc["cmds"]):
        step(sc, ctx, root, k, c, full)
        ctx.steps += 1


def step(sc, ctx, root, k, c, full):
    before = disk.snapshot(root)
    fault = c["fault"]
    target = place(root, c["path"])
    name = real_name(root, c["path"])
    is_dir = os.path.isdir(target)

    def rival(f):
        text = CONTENT[f["text"]].encode()
        try:
            fd = os.open(target, os.O_CREAT | os.O_EXCL | os.O_WRONLY, 0o644)
        except OSError:
            return
        os.write(fd, text)
        os.close(fd)
        # outside the simulated tree: what the other process did
        with open(os.path.join(ctx.scratch, "rival"), "wb") as g:
            g.write(text)

    mark = os.path.join(ctx.scratch, "rival")
    if os.path.exists(mark):
        os.unlink(mark)
    msgs, code, log = disk.spawn(lambda rep: call(rep, root, c), root, fault, hook=rival)
    died = disk.crashed(fault, code)
    if died and fault["kind"].startswith("power"):
        disk.power_loss(root, before, log, random.Random(fault["salt"]))
    fired = died or any(m[0] == "ops" and m[3] for m in msgs)
    done = any(m[0] == "done" for m in msgs)
    theirs = open(mark, "rb").read() if os.path.exists(mark) else None
    if fired:
        ctx.fault(fault["kind"] if fault["kind"] != "rival" or theirs is not None else "rival-too-late")
        ctx.nontrivial = True
    after = disk.snapshot(root)
    now = after.get(name)
    old = before.get(name)
    why = f"{c['path']} (force={c['force']}, {c['via']}) under {fault and fault['kind']} in command {k}"
    # nothing else changes
    for n, data in before.items():
        if n != name and after.get(n) != data:
            raise Violation("other-file-changed", f"{why}: {n} was changed")
    if is_dir:
        if done:
            raise Violation("false-success", f"{why}: a directory is in the way, yet success was reported")
        ctx.log(k, "dir", died)
        return
    if c["force"]:
        ok = [full] if done else [full, theirs if theirs is not None else old]
        if old is None and theirs is None and not done:
            ok.append(None)
        if theirs is not None and not done:
            ok.append(None if old is None else old)
        if now not in ok:
            raise Violation("force-damaged", f"{why}: the file holds {show(now)}; acceptable: {[show(x) for x in ok]}")
    elif old is not None or theirs is not None:
        keep = old if old is not None else theirs
        ctx.nontrivial = True
        if theirs is not None and old is None and done and now == full:
            raise Violation("overwritten", f"{why}: a file that appeared meanwhile was overwritten")
        if now != keep:
            raise Violation("overwritten", f"{why}: the existing file now holds {show(now)} instead of {show(keep)}")
        if done:
            raise Violation("false-success", f"{why}: success was reported although the file was left alone")
        ctx.probe("kept-existing" if old is not None else "kept-rival")
    elif done:
        if now != full:
            raise Violation("template-incomplete", f"{why}: success was reported, the file holds {show(now)}")
    else:
        if not fired:
            if os.path.islink(target):
                pass   # a dangling link counts as something in the way
            else:
                raise Violation("refused", f"{why}: nothing was in the way, but the command failed: {msgs}")
        # a partial new file is possible, but nothing but the template's own bytes
        if now is not None and not died and not full.startswith(now):
            raise Violation("template-incomplete", f"{why}: left {show(now)}")
    ctx.log(k, done, died, "none" if now is None else len(now))
    ctx.state(c["path"], c["force"], c["via"], fault and fault["n"], fault and fault["kind"], done,
              "full" if now == full else "old" if now == old else "other")


def show(x):
    return "no file" if x is None else f"{len(x)} bytes {x[:30]!r}"


def shrink(sc):
    for i, c in enumerate(sc["cmds"]):
        if len(sc["cmds"]) > 1:
            d = copy.deepcopy(sc)
            del d["cmds"][i]
            yield d
        if c["fault"] is not None:
            d = copy.deepcopy(sc)
            d["cmds"][i]["fault"] = None
            yield d
        for key, v in (("via", "write_template"), ("abs", False), ("force", False)):
            if c[key] != v:
                d = copy.deepcopy(sc)
                d["cmds"][i][key] = v
                yield d
    for p in sorted(sc["pre"]):
        d = copy.deepcopy(sc)
        del d["pre"][p]
        yield d
    if sc["link"] != "none":
        yield dict(copy.deepcopy(sc), link="none")
