"""A world of forked gloo ranks, reused for all cases of a shard; every (polar, azimuth) grid that fits is a pair of subgroups of it.

The driver sends a case to the ranks that take part and collects what each returns. A rank derives everything from the case
itself, so a case replays on its own.
"""
import importlib
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

import torch

from lib.harness import Violation


def grids(world):
    return [(p, a) for p in range(1, world + 1) for a in range(1, world + 1) if p * a <= world]


def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<q", len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _read(fd, n, deadline):
    out = b""
    while len(out) < n:
        if deadline is not None:
            left = deadline - time.time()
            if left <= 0 or not select.select([fd], [], [], left)[0]:
                raise TimeoutError
        c = os.read(fd, n - len(out))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(fd, deadline=None):
    n = struct.unpack("<q", _read(fd, 8, deadline))[0]
    return pickle.loads(_read(fd, n, deadline))


class Ctx:
    """What a rank knows about its place in the current grid."""

    def __init__(self, pol, az, rank):
        self.npol, self.naz, self.rank = pol, az, rank
        self.ipol, self.iaz = divmod(rank, az)


def _rank_main(rank, world, store, rfd, wfd):
    import torch.distributed as dist

    torch.set_num_threads(1)
    dist.init_process_group("gloo", init_method="file://" + store, rank=rank, world_size=world)
    import lib.shim  # noqa: F401
    import torch_harmonics.distributed as thd

    groups = {}

    def group(ranks):
        k = tuple(ranks)
        if k not in groups:
            groups[k] = dist.new_group(list(k))
        return groups[k]

    mine = {}
    for pol, az in grids(world):
        for i in range(pol):
            g = group([i * az + j for j in range(az)])
            if rank < pol * az and rank // az == i:
                ga = g
        for j in range(az):
            g = group([i * az + j for i in range(pol)])
            if rank < pol * az and rank % az == j:
                gp = g
        if rank < pol * az:
            mine[(pol, az)] = (gp, ga)
    _send(wfd, ("ready", None))
    while True:
        try:
            modname, fname, pol, az, mode, case = _recv(rfd)
        except EOFError:
            os._exit(0)
        gp, ga = mine[(pol, az)]
        # mode: which groups are registered (a single-rank direction may be left out)
        thd.init(None if (mode & 1 and pol == 1) else gp, None if (mode & 2 and az == 1) else ga)
        try:
            fn = getattr(importlib.import_module(modname), fname)
            torch.manual_seed(99)
            r = ("ok", fn(case, Ctx(pol, az, rank)))
        except Exception as e:  # noqa: BLE001
            fr = traceback.extract_tb(e.__traceback__)
            lib_err = any("/repo/torch_harmonics/" in f.filename or "/verif/lib/shim" in f.filename for f in fr)
            r = ("lib" if lib_err else "harness", f"{type(e).__name__}: {str(e)[:300]} at {fr[-1].filename}:{fr[-1].lineno}\n{traceback.format_exc()[-1500:]}")
        _send(wfd, r)


class World:
    def __init__(self, size):
        self.size = size
        self.procs = []

    def start(self):
        self.dir = tempfile.mkdtemp(prefix="vpdist")
        self.procs = []
        for r in range(self.size):
            a, b = os.pipe()
            c, d = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(b)
                    os.close(c)
                    for _, wf, rf in self.procs:
                        os.close(wf)
                        os.close(rf)
                    _rank_main(r, self.size, os.path.join(self.dir, "store"), a, d)
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                finally:
                    os._exit(1)
            os.close(a)
            os.close(d)
            self.procs.append((pid, b, c))
        for _, _, rf in self.procs:
            _recv(rf, time.time() + 120)

    def stop(self):
        for pid, wf, rf in self.procs:
            os.close(wf)
            os.close(rf)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        if self.procs:
            shutil.rmtree(self.dir, ignore_errors=True)
        self.procs = []

    def run(self, modname, fname, pol, az, case, mode=0, timeout=60):
        """Results of the ranks in order; a failure of the library on any rank is a violation."""
        if not self.procs:
            self.start()
        n = pol * az
        for pid, wf, _ in self.procs[:n]:
            _send(wf, (modname, fname, pol, az, mode, case))
        out, fail, harness = [None] * n, None, None
        deadline = time.time() + timeout
        pending = list(range(n))
        while pending:
            fds = [self.procs[i][2] for i in pending]
            left = deadline - time.time()
            ready = select.select(fds, [], [], max(0.0, left))[0] if left > 0 else []
            if not ready:
                if fail is None:
                    fail = f"ranks {pending} of the {pol}x{az} grid did not finish within {timeout} s"
                break
            for i in list(pending):
                if self.procs[i][2] in ready:
                    try:
                        k, v = _recv(self.procs[i][2], time.time() + 30)
                    except (EOFError, TimeoutError):
                        k, v = "lib", "the process died"
                    pending.remove(i)
                    if k == "ok":
                        out[i] = v
                    elif k == "harness":
                        harness = v
                    elif fail is None or "Connection closed" in fail or "did not finish" in fail:
                        fail = f"rank {i} of the {pol}x{az} grid: {v}"
                    if k != "ok":
                        # the others may be stuck in a collective: give them a moment, not the full limit
                        deadline = min(deadline, time.time() + 3)
        if fail is not None or harness is not None:
            self.stop()
            if harness is not None and (fail is None or "did not finish" in fail):
                raise RuntimeError(harness)
            raise Violation(fail)
        return out


_world = None


def start(size):
    global _world
    _world = World(size)
    _world.start()


def stop():
    global _world
    if _world is not None:
        _world.stop()
        _world = None


def run(*a, **k):
    return _world.run(*a, **k)


def split_sizes(n, k):
    """Balanced sizes, larger ones first."""
    return [n // k + (1 if i < n % k else 0) for i in range(k)]


def bounds(n, k, i):
    s = split_sizes(n, k)
    return sum(s[:i]), sum(s[: i + 1])


def local(x, ctx, hdim=-2, wdim=-1):
    """This rank's block of a global tensor."""
    a, b = bounds(x.shape[hdim], ctx.npol, ctx.ipol)
    x = x.narrow(hdim, a, b - a)
    a, b = bounds(x.shape[wdim], ctx.naz, ctx.iaz)
    return x.narrow(wdim, a, b - a).contiguous()


def assemble(blocks, pol, az, hdim=-2, wdim=-1):
    return torch.cat([torch.cat(blocks[i * az : (i + 1) * az], dim=wdim) for i in range(pol)], dim=hdim)
