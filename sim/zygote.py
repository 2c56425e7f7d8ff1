"""A second interpreter to run the same execution in.

Started next to a worker with another hash seed (so: other orders of sets, other hashes, other addresses), it imports the same code and
forks a process for every request; the request names the scenario's function, its recorded choices and what is different there
(clock, speed, entropy, process number, working directory ...)."""
from __future__ import annotations

import os
import pickle
import select
import socket
import struct
import subprocess
import sys

SEED = "4242"
PATH = None             # where the zygote of this process (or of its parent) listens
_keep = None


def start(prop):
    """In the worker, before the seams are in place."""
    global PATH, _keep
    if PATH is not None or os.environ.get("VERIF_ZYGOTE"):
        return
    from . import runner
    path = os.path.join(os.getcwd(), "z.sock")
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    p = subprocess.Popen([sys.executable, "-m", "sim.zygote", prop, str(srv.fileno())], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                         env=dict(runner.env_for_children(SEED), VERIF_ZYGOTE="1"), pass_fds=[srv.fileno()])
    srv.close()
    PATH, _keep = path, p


def ask(request):
    """Outside of a simulation: the answer of the other interpreter."""
    from .core import HarnessError
    c = socket.socket(socket.AF_UNIX)
    try:
        c.connect(PATH)
        data = pickle.dumps(request)
        c.sendall(struct.pack("<I", len(data)) + data)
        buf = b""
        while True:
            b = c.recv(1 << 16)
            if not b:
                break
            buf += b
    finally:
        c.close()
    if len(buf) < 4 or len(buf) != 4 + struct.unpack("<I", buf[:4])[0]:
        raise HarnessError("the other interpreter gave no answer")
    return pickle.loads(buf[4:])


def _recv(c, n):
    buf = b""
    while len(buf) < n:
        b = c.recv(n - len(buf))
        if not b:
            raise EOFError
        buf += b
    return buf


def serve(m, prop, c):
    """In a process of its own."""
    import shutil

    from . import core, runner
    from .ctx import Ctx
    n = struct.unpack("<I", _recv(c, 4))[0]
    req = pickle.loads(_recv(c, n))
    d = req["cwd"]
    os.makedirs(d)
    os.chdir(d)
    ch = core.Chooser(replay=req["choices"])
    ctx = Ctx(ch, prop, req["tier"])
    runner.reset_process_state(ch)
    runner.limit_cpu()
    try:
        out = ("ok", getattr(m, req["fn"])(ctx, req["variant"]))
    except core.Violation as v:
        out = ("violation", v.sig, v.msg)
    except BaseException as e:
        if runner.raised_by_repo(e):
            out = ("violation", "raises", f"{type(e).__name__} out of the code under test, from {runner.place(e)}")
        else:
            import traceback
            out = ("error", traceback.format_exc()[-2500:])
    data = pickle.dumps(out)
    c.sendall(struct.pack("<I", len(data)) + data)
    os.chdir("/")
    shutil.rmtree(d, ignore_errors=True)


def main(prop, fd):
    from . import core, runner
    srv = socket.socket(fileno=int(fd))
    core.seed_entropy(999)              # also for what is drawn while modules are imported
    m = runner.load(prop)
    while True:
        rl, _, _ = select.select([srv, 0], [], [])
        if 0 in rl:                     # the worker is gone
            return
        c, _ = srv.accept()
        pid = os.fork()
        if pid == 0:
            if os.fork():
                os._exit(0)
            try:
                srv.close()
                serve(m, prop, c)
            finally:
                os._exit(0)
        c.close()
        os.waitpid(pid, 0)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2])
