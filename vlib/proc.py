"""Runs a call that starts processes of its own (optimize, map) in a child, in its own session, within a time limit.

Whatever happens in there (a worker killed, a hang, processes left behind), nothing of it survives the call.
"""

import contextlib
import os
import pickle
import select
import signal
import time
import traceback


class Outcome:
    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value  # ok (value), error (traceback text), hang, died (wait status)

    def __repr__(self):
        return f"{self.kind}: {str(self.value)[-1500:]}"


def run(fn, timeout=90, env=None, log=None):
    """Call fn() in a child process; the child's processes are killed when it ends."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setsid()
            null = os.open("/dev/null", os.O_RDONLY)
            out = os.open(log or "/dev/null", os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
            os.dup2(null, 0)
            os.dup2(out, 1)
            os.dup2(out, 2)
            os.set_inheritable(w, False)
            for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM):
                signal.signal(s, signal.SIG_DFL)
            import sys

            sys.stdout = os.fdopen(1, "w", closefd=False)
            sys.stderr = os.fdopen(2, "w", closefd=False)
            for k, v in (env or {}).items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = str(v)
            import tempfile

            tempfile.tempdir = None
            try:
                data = pickle.dumps(("ok", fn()))
            except BaseException:
                data = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf, deadline, ended = b"", time.monotonic() + timeout, False
    try:
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                break
            # the pipe stays open in grandchildren: the end of the child, not of the file, ends the wait
            ready, _, _ = select.select([r], [], [], min(left, 0.5))
            if ready:
                part = os.read(r, 1 << 20)
                if part:
                    buf += part
                    try:
                        kind, value = pickle.loads(buf)
                    except Exception:
                        continue
                    return Outcome(kind, value)
                ended = True
            if ended or not ready:
                done, status = os.waitpid(pid, os.WNOHANG)
                if done:
                    pid_done, pid = pid, None
                    _killpg(pid_done)
                    return Outcome("died", status)
                if ended:
                    time.sleep(0.01)
        return Outcome("hang", timeout)
    finally:
        os.close(r)
        if pid is not None:
            _killpg(pid)
            with contextlib.suppress(ChildProcessError):
                os.waitpid(pid, 0)


def _killpg(pgid):
    for _ in range(20):
        try:
            os.killpg(pgid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            return
        time.sleep(0.005)
        if not _members(pgid):
            return


def _members(pgid):
    """Processes of the group which are still running (not zombies)."""
    out = []
    for name in os.listdir("/proc"):
        if not name.isdigit():
            continue
        try:
            with open(f"/proc/{name}/stat") as f:
                fields = f.read().rpartition(")")[2].split()
        except OSError:
            continue
        if int(fields[2]) == pgid and fields[0] != "Z":
            out.append(int(name))
    return out


def dirs(base):
    """Environment that keeps the caches and temporary folders of one call inside base."""
    env = {}
    for k, d in (("DATA_OPTIMIZER_CACHE_FOLDER", "chunks"), ("DATA_OPTIMIZER_DATA_CACHE_FOLDER", "data"), ("TMPDIR", "tmp")):
        p = os.path.join(base, d)
        os.makedirs(p, exist_ok=True)
        env[k] = p
    return env
