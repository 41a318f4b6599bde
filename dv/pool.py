"""A pool of dunesh processes in serve mode.

Each worker runs as an unprivileged user in its own scratch directory, so that
nothing the shell is asked to do can touch anything else.  A request that
kills or hangs its process is an observation, not an error of the check."""
import json
import os
import queue
import select
import shutil
import signal
import subprocess
import tempfile
import threading

from . import build

NOBODY = 65534
WORKERS = 8


def demote():
    os.setsid()
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    os.umask(0o022)


class Scratch:
    """A scratch directory owned by the unprivileged user."""

    def __init__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix="dv-"))
        os.chmod(self.path, 0o755)
        self.own(self.path)

    @staticmethod
    def own(path):
        if os.geteuid() == 0:
            os.chown(path, NOBODY, NOBODY)

    def sub(self, name):
        p = os.path.join(self.path, name)
        os.makedirs(p, exist_ok=True)
        self.own(p)
        return p

    def remove(self):
        for root, dirs, _ in os.walk(self.path):
            for d in dirs:
                p = os.path.join(root, d)
                if not os.path.islink(p):
                    try:
                        os.chmod(p, 0o755)
                    except OSError:
                        pass
        shutil.rmtree(self.path, ignore_errors=True)


def clean_env(home):
    return {
        "HOME": home, "PATH": build.VBIN, "LANG": "C.UTF-8",
        "TERM": "dumb", "RUST_BACKTRACE": "0", "USER": "nobody",
    }


def make_home(scratch, name):
    home = scratch.sub(name)
    prelude = os.path.join(home, ".dune-prelude")
    with open(prelude, "w") as f:
        f.write("")
    Scratch.own(prelude)
    return home


class Worker:
    def __init__(self, scratch, n):
        self.scratch, self.n = scratch, n
        self.home = make_home(scratch, "w%d" % n)
        self.capture = os.path.join(scratch.path, "cap%d" % n)
        self.p = None

    def start(self):
        with open(self.capture, "w"):
            pass
        Scratch.own(self.capture)
        env = clean_env(self.home)
        env["DUNE_VERIF_SERVE"] = self.capture
        self.p = subprocess.Popen(
            [build.DUNESH], cwd=self.home, env=env, stdin=subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=demote)
        self.buf = b""

    def stop(self):
        if self.p:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.stdin.close()
            self.p.stdout.close()
            self.p.wait()
            self.p = None

    def ask(self, req, timeout):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req).encode() + b"\n")
            self.p.stdin.flush()
            fd = self.p.stdout.fileno()
            while b"\n" not in self.buf:
                r, _, _ = select.select([fd], [], [], timeout)
                if not r:
                    self.stop()
                    return {"hang": True}
                data = os.read(fd, 1 << 20)
                if not data:
                    break
                self.buf += data
            if b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                return json.loads(line)
        except BrokenPipeError:
            pass
        rc = self.p.wait()
        self.stop()
        return {"abort": rc}


class Pool:
    def __init__(self, scratch, workers=WORKERS):
        self.workers = [Worker(scratch, i) for i in range(workers)]

    def map(self, reqs, timeout=60):
        """Answers to the requests, in order."""
        out = [None] * len(reqs)
        q = queue.Queue()
        step = max(1, min(64, len(reqs) // (4 * len(self.workers)) or 1))
        for i in range(0, len(reqs), step):
            q.put(range(i, min(len(reqs), i + step)))

        errors = []

        def run(w):
            try:
                while True:
                    try:
                        chunk = q.get_nowait()
                    except queue.Empty:
                        return
                    for i in chunk:
                        out[i] = w.ask(reqs[i], timeout)
                        if out[i].get("hang"):
                            # Once more, alone in time: a busy machine is not a hang.
                            out[i] = w.ask(reqs[i], timeout)
            except Exception as e:  # reported by the caller
                errors.append(e)

        ts = [threading.Thread(target=run, args=(w,)) for w in self.workers]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise errors[0]
        return out

    def close(self):
        for w in self.workers:
            w.stop()
