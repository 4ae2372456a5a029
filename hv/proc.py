"""Running the command line tools as real processes, in a scratch directory."""
import os
import resource
import shutil
import signal
import subprocess
import fcntl
import termios
import threading
import time
import sys
import tempfile

from .core import REPO, Violation

CPU = 40


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="hv-")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)
        return self.path(name)

    def get(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def snapshot(self):
        return {n: self.get(n) for n in sorted(os.listdir(self.dir))}


def env(**extra):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "PYTHONPATH": REPO, "HOME": "/nonexistent",
         "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}
    e.update(extra)
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)


def run(args, stdin=b"", cwd=None, stdout=subprocess.PIPE, extra_env=None, preexec=None, slow=0, fds=()):
    """Runs python3 <args>; returns (exit status, stdout, stderr).  With slow, the input arrives in that
    many pieces with pauses between them."""
    def pre():
        limits()
        if preexec:
            preexec()
    if slow and len(stdin) > 1:
        r, w = os.pipe()

        def feed():
            try:
                n = -(-len(stdin) // slow)
                for i in range(0, len(stdin), n):
                    os.write(w, stdin[i:i + n])
                    # as soon as the reader took it, and once more after a while
                    for _ in range(200):
                        if not fcntl.ioctl(w, termios.FIONREAD, b"\0" * 4).strip(b"\0"):
                            break
                        time.sleep(0.005)
                    time.sleep(0.01)
            except OSError:
                pass
            finally:
                os.close(w)
        t = threading.Thread(target=feed, daemon=True)
        p = subprocess.Popen([sys.executable, "-B"] + args, stdin=r, stdout=stdout, stderr=subprocess.PIPE,
                             cwd=cwd, env=env(**(extra_env or {})), preexec_fn=pre)
        os.close(r)
        t.start()
        try:
            out, err = p.communicate(timeout=300)
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        t.join(5)
        return p.returncode, out, err
    p = subprocess.run([sys.executable, "-B"] + args, input=stdin, stdout=stdout, stderr=subprocess.PIPE,
                       cwd=cwd, env=env(**(extra_env or {})), preexec_fn=pre, pass_fds=fds, timeout=300)
    if p.returncode == -signal.SIGXCPU:
        raise Violation("no result within %d s of CPU time: %s" % (CPU, args))
    return p.returncode, p.stdout, p.stderr


CONVERTER = ["-m", "hrdc.converter"]
EXTRACTOR = ["-m", "hrdc.descriptor.extractor"]
