"""Runs of the program itself, judged by spec/TraceShell."""
import os
import pty
import shutil
import subprocess
import threading
from concurrent.futures import ThreadPoolExecutor

from . import build, pool
from .build import ToolError

HOME = "h"      # the home directory, in the scratch directory of a run
IGNORED = {".dune-history"}


def T(*nodes):
    return [[n[0].split("/"), ["dir"] if len(n) == 1 else n[1] if isinstance(n[1], list) else ["file", ["str", n[1]]]] for n in nodes]


def run(file="", exec=(), inter=False, lines=(), tree=(), prelude="", term="xterm", argv=None, end=True, home=True):
    """A run to record; argv overrides how the command line is written."""
    t = ([[[HOME], ["dir"]]] if home else []) + ([[[HOME, ".dune-prelude"], ["file", ["str", prelude]]]] if prelude is not None and home else []) + list(tree)
    if argv is None:
        argv = ([file] if file else []) + (["-i"] if inter and exec else []) + (["-x"] + list(exec) if exec else []) + (["-i"] if inter and not exec else [])
    return {"file": file, "exec": list(exec), "inter": bool(inter), "lines": list(lines), "tree": t, "argv": argv, "term": term, "end": end or not lines or lines[-1] == ""}


def data(j):
    return j[1].encode() if j[0] == "str" else bytes(j[1])


def plant(root, tree):
    for names, node in tree:
        p = os.path.join(root, *names)
        if node[0] == "dir":
            os.mkdir(p)
        elif node[0] == "link":
            os.symlink(node[1], p)
        else:
            with open(p, "wb") as f:
                f.write(data(node[1]))
        if os.geteuid() == 0:
            os.lchown(p, pool.NOBODY, pool.NOBODY)


def text(b):
    try:
        return ["str", b.decode()]
    except UnicodeDecodeError:
        return ["bytes", list(b)]


def survey(root, names=()):
    out = []
    for n in sorted(os.listdir(os.path.join(root, *names))):
        p = os.path.join(root, *names, n)
        if n in IGNORED:
            continue
        at = list(names) + [n]
        if os.path.islink(p):
            out.append([at, ["link", os.readlink(p)]])
        elif os.path.isdir(p):
            out.append([at, ["dir"]])
            out += survey(root, at)
        else:
            with open(p, "rb") as f:
                out.append([at, ["file", text(f.read())]])
    return out


def perform(ctx, req, n, timeout):
    root = ctx.scratch.sub("run%d" % n)
    try:
        plant(root, req["tree"])
        env = pool.clean_env(os.path.join(root, HOME))
        env["TERM"] = req["term"]
        given = "\n".join(req["lines"]) + ("\n" if req["lines"] and req["end"] else "")
        p = subprocess.Popen([build.DUNESH] + req["argv"], cwd=root, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, preexec_fn=pool.demote)
        try:
            out, err = p.communicate(given.encode(), timeout=timeout)
            code = p.returncode
        except subprocess.TimeoutExpired:
            pool.os.killpg(p.pid, pool.signal.SIGKILL)
            out, err = p.communicate()
            code = "hang"
        inh = {k: v for k, v in env.items()}
        return {"cwd": root, "root": [x for x in root.split("/") if x], "home": env["HOME"], "inh": [[k, v] for k, v in inh.items()],
                "file": req["file"], "exec": req["exec"], "inter": req["inter"], "lines": req["lines"], "tree": req["tree"], "argv": req["argv"],
                "obs": {"out": out.decode("utf-8", "replace"), "err": err.decode("utf-8", "replace"), "code": code, "tree": survey(root)}}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def record(ctx, reqs, timeout=60):
    with ThreadPoolExecutor(pool.WORKERS) as ex:
        return list(ex.map(lambda x: perform(ctx, x[1], x[0], timeout), enumerate(reqs)))


def judge(ctx, reqs, what, max_skip=0.2, timeout=60, batch=4000):
    cases = record(ctx, reqs, timeout)
    ctx.judge("TraceShell", cases, what, steps=lambda c: len(c["lines"]) + 5, batch=batch, max_skip=max_skip,
              show=lambda c: {"argv": c["argv"], "lines": c["lines"]}, env={"SMALL": "1"})
    return cases
