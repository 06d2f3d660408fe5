"""A stand-in for a cluster: runs a script once per rank, one rank moving at a
time, in an order given by the caller; records what the ranks do to the files
of the output directory.  Commands and removals are carried out by stand-ins
which act inside the run's scratch directory only."""
import builtins
import contextlib
import glob
import io
import os
import shlex
import sys
import threading
import types

import numpy as np

CURRENT = None      # the run in progress


class Refused(RuntimeError):
    pass


class Deadlock(RuntimeError):
    pass


class Comm:
    """The communicator: each rank's thread sees its own rank."""

    def __init__(self, run):
        self._run = run

    def Get_rank(self):
        return self._run.me()

    def Get_size(self):
        return self._run.nranks

    rank = property(Get_rank)
    size = property(Get_size)

    def Barrier(self):
        self._run.collective("bar", None, lambda got: None, wait="all")

    barrier = Barrier

    def reduce(self, x, op=None, root=0):
        r = self._run.me()
        return self._run.collective("reduce", x, lambda got: _fold(op, got) if r == root else None, wait="all" if r == root else "none")

    def allreduce(self, x, op=None):
        return self._run.collective("allreduce", x, lambda got: _fold(op, got), wait="all")

    def gather(self, x, root=0):
        r = self._run.me()
        return self._run.collective("gather", x, lambda got: list(got) if r == root else None, wait="all" if r == root else "none")

    def allgather(self, x):
        return self._run.collective("allgather", x, lambda got: list(got), wait="all")

    def bcast(self, x, root=0):
        return self._run.collective("bcast", x, lambda got: got[root], wait=root)

    def scatter(self, x, root=0):
        r = self._run.me()
        return self._run.collective("scatter", x, lambda got: got[root][r], wait=root)


def _fold(op, got):
    op = op or np.add
    out = got[0]
    for x in got[1:]:
        out = op(out, x)
    return out


class _World:
    """MPI.COMM_WORLD of whichever run is in progress."""

    def __getattr__(self, k):
        return getattr(CURRENT.comm, k)


def install():
    m = types.ModuleType("mpi4py")
    m.MPI = types.SimpleNamespace(COMM_WORLD=_World(), SUM=np.add, MAX=np.maximum, MIN=np.minimum, Wtime=lambda: 0.0)
    sys.modules["mpi4py"] = m
    sys.modules["mpi4py.MPI"] = m.MPI
    sys.addaudithook(_audit)
    os.system = _system


def _inside(path, run):
    try:
        p = os.path.realpath(os.fspath(path))
    except TypeError:
        return False
    if isinstance(p, bytes):
        p = p.decode()
    return p.startswith(run.root + os.sep)


def _audit(event, args):
    run = CURRENT
    if run is None or threading.get_ident() not in run.ranks or getattr(run.tls, "quiet", False):
        return
    if event == "open":
        path, mode = args[0], args[1]
        if not isinstance(path, (str, bytes, os.PathLike)):
            return
        writing = isinstance(mode, str) and any(c in mode for c in "wax+")
        if writing and not _inside(path, run) and os.fspath(path) != os.devnull and "pyc" not in str(path):
            raise Refused(f"write to {path}")
        if _inside(path, run) and run.watched(path):
            run.step()
            if writing:
                run.note("open", fn=os.path.basename(os.fspath(path)), write=True)
            else:
                run.note("read", fn=os.path.basename(os.fspath(path)), outs=run.n_outputs(), disk=run.disk_ids())
    elif event in ("os.remove", "os.rmdir", "shutil.rmtree", "os.rename", "os.truncate"):
        if not _inside(args[0], run):
            raise Refused(f"{event} {args[0]}")
        if event in ("os.remove", "os.rename") and run.watched(args[0]):
            run.removing([os.fspath(args[0])])
    elif event in ("subprocess.Popen", "os.exec", "os.posix_spawn", "os.fork", "os.kill"):
        raise Refused(f"{event} {args[:2]}")


def _system(command):
    """Stand-in of os.system: `rm` of files inside the run's scratch only."""
    run = CURRENT
    words = shlex.split(command if isinstance(command, str) else command.decode())
    if not words or words[0] != "rm":
        raise Refused(command)
    files = []
    for w in words[1:]:
        if not w.startswith("-"):
            files += sorted(glob.glob(w)) or []
    for f in files:
        if not _inside(f, run):
            raise Refused(command)
    run.removing(files)
    with run.quietly():
        for f in files:
            os.remove(f)
    return 0 if files else 256


class Run:
    def __init__(self, root, outdir, nranks, order, pref, output_ids, watched):
        self.root, self.outdir, self.nranks = os.path.realpath(root), outdir, nranks
        self.order, self.pref = list(order), list(pref)
        self.output_ids_of, self.watched_name = output_ids, watched
        self.comm = Comm(self)
        self.log, self.ranks = [], {}
        self.cv = threading.Condition()
        self.turn = None
        self.state = ["new"] * nranks        # ready | blocked | done
        self.calls = [0] * nranks            # collectives entered by each rank
        self.posted = {}                     # call number -> {rank: value}
        self.blocked_on = {}
        self.error = None
        self.abort = False
        self.tls = threading.local()

    # what a rank sees ------------------------------------------------------
    def me(self):
        return self.ranks[threading.get_ident()]

    @contextlib.contextmanager
    def quietly(self):
        was = getattr(self.tls, "quiet", False)
        self.tls.quiet = True
        try:
            yield
        finally:
            self.tls.quiet = was

    def note(self, k, **kw):
        self.log.append(dict(k=k, r=self.me(), **kw))

    def watched(self, path):
        return self.watched_name(os.path.basename(os.fspath(path)))

    def disk_ids(self):
        ids = []
        with self.quietly():
            for fn in sorted(os.listdir(self.outdir)):
                if self.watched_name(fn):
                    ids += self.file_ids(os.path.join(self.outdir, fn))
        return ids

    @staticmethod
    def file_ids(fn):
        ids = []
        for line in open(fn):
            if line.strip() and not line.startswith("#") and line.endswith("\n"):
                ids.append(line.split()[0])
        return ids

    def outputs(self):
        return [os.path.join(self.outdir, f) for f in sorted(os.listdir(self.outdir)) if not self.watched_name(f)]

    def n_outputs(self):
        with self.quietly():
            return len(self.outputs())

    def removing(self, files):
        with self.quietly():
            gone = [i for f in files if self.watched(f) and os.path.exists(f) for i in self.file_ids(f)]
            have = []
            for f in self.outputs():
                try:
                    have += self.output_ids_of(f)
                except OSError:
                    pass
        self.note("rm", files=[os.path.basename(f) for f in files], gone=gone, have=have)

    # scheduling ------------------------------------------------------------
    def _pick(self):
        """The rank which moves next (caller holds the lock)."""
        for r in range(self.nranks):
            if self.state[r] == "blocked" and self._open(self.blocked_on[r]):
                self.state[r] = "ready"
        ready = [r for r in range(self.nranks) if self.state[r] == "ready"]
        if not ready:
            if any(s != "done" for s in self.state):
                self.abort = True
                self.error = self.error or Deadlock("ranks wait for each other: " + str(self.state))
            self.turn = None
        else:
            while self.order:
                r = self.order.pop(0)
                if r in ready:
                    self.turn = r
                    break
            else:
                self.turn = min(ready, key=self.pref.index)
        self.cv.notify_all()

    def _open(self, cond):
        call, wait = cond
        got = self.posted.get(call, {})
        return len(got) == self.nranks if wait == "all" else wait in got

    def _await(self, r):
        while self.turn != r and not self.abort:
            if not self.cv.wait(120):
                self.abort = True
        if self.abort:
            raise SystemExit

    def step(self):
        """Another rank may move here."""
        r = self.me()
        with self.cv:
            self._pick()
            self._await(r)

    def collective(self, kind, value, result, wait):
        r = self.me()
        with self.cv:
            call = self.calls[r]
            self.calls[r] += 1
            self.posted.setdefault(call, {})[r] = value
            who = {"all": -2, "none": -1}.get(wait, wait)
            self.log.append(dict(k="arrive", r=r, c=call, what=kind, w=who))
            if wait != "none":
                self.state[r] = "blocked"
                self.blocked_on[r] = (call, wait)
            self._pick()
            self._await(r)
            self.log.append(dict(k="pass", r=r, c=call, what=kind, w=who))
            got = self.posted[call]
        return result([got.get(q) for q in range(self.nranks)])

    # running ---------------------------------------------------------------
    def _rank(self, r, code, path):
        self.ranks[threading.get_ident()] = r
        with self.cv:
            self.state[r] = "ready"
            self.cv.notify_all()
            try:
                self._await(r)
            except SystemExit:
                return
        try:
            exec(code, {"__name__": "__main__", "__file__": path, "__builtins__": builtins})
            self.note("end")
        except SystemExit as ex:
            if not self.abort:
                self.error = self.error or RuntimeError(f"rank {r} exited with {ex.code}")
        except BaseException as ex:  # noqa: BLE001
            if self.error is None:
                self.error = ex
        with self.cv:
            self.state[r] = "done"
            if self.error is not None:
                self.abort = True
            self._pick()

    def go(self, path, argv):
        global CURRENT
        code = compile(open(path).read(), path, "exec")
        CURRENT, old = self, (sys.argv, sys.stdout)
        sys.argv = [path] + [str(a) for a in argv]
        sys.stdout = io.StringIO()
        try:
            ts = [threading.Thread(target=self._rank, args=(r, code, path), daemon=True) for r in range(self.nranks)]
            for t in ts:
                t.start()
            with self.cv:
                while any(s == "new" for s in self.state):
                    self.cv.wait(10)
                self._pick()
            for t in ts:
                t.join(200)
        finally:
            CURRENT = None
            sys.argv, sys.stdout = old
        if self.error is not None:
            raise self.error
        return self
