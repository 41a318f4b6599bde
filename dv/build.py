"""Builds dunesh from /repo's working tree with the verification hook on."""
import fcntl
import glob
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DUNE_REPO", "/repo")
TARGET = os.environ.get("DV_TARGET") or os.path.join(VERIF, "target")
DUNESH = os.path.join(TARGET, "debug", "dunesh")
VBIN = os.path.join(TARGET, "vbin")      # the only programs the shell under test finds
TOOLS = ["vargv", "venv", "vwhere", "vcat", "vupper", "vtake", "vgen", "vcount", "vstatus", "vbytes", "vnull", "vdup",
         "vlast"]


class ToolError(Exception):
    pass


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".dv-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # Do not trust time stamps: always recompile the crate itself.
        for d in glob.glob(os.path.join(TARGET, "debug", ".fingerprint", "dune-*")):
            shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ)
        env["DUNE_VERIF_HARNESS"] = os.path.join(VERIF, "harness", "serve.rs")
        env["RUSTFLAGS"] = "--cfg dune_verif"
        env["CARGO_TARGET_DIR"] = TARGET
        env["CARGO_INCREMENTAL"] = "1"
        p = subprocess.run(
            ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", "dunesh"],
            cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            sys.stdout.write(p.stdout[-4000:])
            raise ToolError("building dunesh failed")
        tools()
    return DUNESH


def tools():
    src = os.path.join(VERIF, "harness", "vtool.c")
    tool = os.path.join(VBIN, "vargv")
    if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
        os.makedirs(VBIN, exist_ok=True)
        subprocess.run(["gcc", "-O1", "-o", tool, src], check=True)
    for t in TOOLS[1:]:
        link = os.path.join(VBIN, t)
        if not os.path.lexists(link):
            os.symlink("vargv", link)


if __name__ == "__main__":
    print(build())
