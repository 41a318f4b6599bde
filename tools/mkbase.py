#!/usr/bin/env python3
"""Writes spec/base.json, the environment the shell starts with, from a recording of it.

usage: mkbase.py RECORDING   (the answer "base" of the harness)

This is run by hand when the specification of the initial environment changes;
the checks compare the committed file with what the shell really defines."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALIAS = {"cd": "os@cd", "exit": "os@exit", "quit": "os@exit", "echo": "println", "log@echo": "println", "<<": "fs@read",
         "string@rev": "list@rev", "string@len": "list@len", "sys@eval": "eval", "sys@exec": "exec"}
INNER = {"a-rsh": "math@a-rsh", "l-rsh": "math@l-rsh", "rsh": "math@rsh", "log": "math@log",
         "take": "list@take", "drop": "list@drop"}
OPEN = {"HOME", "CWD", "fs@dirs", "shell@suggestion", "shell@path", "shell@prelude", "os@name", "os@family", "os@version"}
SEES = {"math@max", "math@min", "join", "prompt", "incomplete_prompt", ">>", ">>>"}


def used(v):
    k = v[0]
    if k == "sym":
        return {v[1]}
    if k in ("list", "do"):
        return set().union(*[used(x) for x in v[1]]) if v[1] else set()
    if k == "map":
        return set().union(*[used(x) for _, x in v[1]]) if v[1] else set()
    if k in ("grp", "quo"):
        return used(v[1])
    if k in ("lam", "mac", "asg"):
        return used(v[2])
    if k == "for":
        return used(v[2]) | used(v[3])
    if k == "if":
        return used(v[1]) | used(v[2]) | used(v[3])
    if k == "app":
        return set().union(used(v[1]), *[used(x) for x in v[2]])
    return set()


def norm(path):
    if path.startswith("std@"):
        path = path[4:]
    if path.startswith("ops@"):
        path = path[4:]
    return path


def mark(v, path, names, top=True):
    p = norm(path)
    if p in OPEN:
        return ["any"]
    k = v[0]
    if k == "map":
        return ["map", [[n, mark(x, path + "@" + n, names)] for n, x in v[1]]]
    if k == "bi":
        if not top:
            return ["bi", v[1], INNER.get(v[1], v[1])]
        return ["bi", v[1], ALIAS.get(p, p)]
    if k == "lam":
        body = inner(v[2])
        out = ["lam", v[1], body]
        if top:
            out.append(sorted(used(v) & names) if p in SEES else [])
        return out
    if k == "mac":
        return ["mac", v[1], inner(v[2])]
    return v


def inner(v):
    if isinstance(v, list):
        if v and v[0] == "bi":
            return mark(v, "", set(), top=False)
        return [inner(x) for x in v]
    return v


def main():
    base = json.load(open(sys.argv[1]))
    names = {n for n, _ in base}
    with open(os.path.join(VERIF, "spec", "base.json"), "w") as f:
        f.write(json.dumps([[n, mark(v, n, names)] for n, v in base], ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
