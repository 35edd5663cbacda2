"""A long-running harness process spoken to line by line."""
import os
import signal
import subprocess
import threading

from .gitrepo import HarnessError

_procs = {}


class LineProc:
    def __init__(self, path, env=None, cwd=None):
        self.path, self.env, self.cwd, self.p = path, env, cwd, None

    def ask(self, line, timeout=60):
        """One line in, one line out; None if the process died on it."""
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                      env=self.env, cwd=self.cwd, start_new_session=True)
        timer = threading.Timer(timeout, lambda: os.killpg(self.p.pid, signal.SIGKILL))
        timer.start()
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except BrokenPipeError:
            out = b""
        finally:
            expired = not timer.is_alive()
            timer.cancel()
        if not out:
            if expired:
                self.p = None
                raise HarnessError("no end after %d s: %s on %s" % (timeout, self.path, line), "hang")
            self.err = self.p.stderr.read().decode("utf-8", "replace")
            self.p.wait()
            self.p = None
            return None
        return out.decode().rstrip("\n")


def get(path, **kw):
    """One process per worker and harness."""
    key = (os.getpid(), path)
    if key not in _procs:
        _procs[key] = LineProc(path, **kw)
    return _procs[key]
