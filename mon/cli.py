"""Running the command lines in scratch directories and reading what they print."""
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
from .common import REPO, CaseTimeout

ANSI = re.compile(r'\x1b\[[0-9;?]*[A-Za-z]')
PY = sys.executable


def env(**kw):
    e = {k: v for k, v in os.environ.items() if k in ('PATH', 'LANG', 'HOME', 'TERM')}
    e.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', LANG='C.UTF-8', TERM='dumb', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    e.update(kw)
    return e


class Scratch:
    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='verif-cli-')
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def run(args, cwd, timeout=100, **kw):
    e = env(MPLCONFIGDIR=os.path.join(cwd, '.mpl'), HOME=cwd, **kw)
    try:
        r = subprocess.run([PY] + list(args), cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise CaseTimeout()
    return r.returncode, r.stdout, r.stderr


def run_tty(args, cwd, timeout=100, size=(24, 80)):
    """the same on a pseudo terminal"""
    import fcntl
    import pty
    import select
    import struct
    import termios
    import time
    a, b = pty.openpty()
    fcntl.ioctl(b, termios.TIOCSWINSZ, struct.pack('HHHH', size[0], size[1], 0, 0))
    p = subprocess.Popen([PY] + list(args), cwd=cwd, env=env(TERM='xterm', HOME=cwd), stdin=b, stdout=b, stderr=subprocess.PIPE, text=False, start_new_session=True)
    os.close(b)
    out, end = b'', time.monotonic() + timeout
    try:
        while True:
            if time.monotonic() > end:
                os.killpg(p.pid, signal.SIGKILL)
                raise CaseTimeout()
            if a in select.select([a], [], [], 1)[0]:
                try:
                    d = os.read(a, 65536)
                except OSError:
                    break
                if not d:
                    break
                out += d
        err = p.stderr.read().decode()
        return p.wait(timeout=30), out.decode().replace('\r\n', '\n'), err
    finally:
        os.close(a)
        p.stderr.close()
        if p.poll() is None:
            p.kill()
            p.wait()


def matrices(text):
    """every printed array, as a tuple of tuples; None in place of one that cannot be read in full"""
    text = ANSI.sub('', text)
    out = []
    for m in re.finditer(r'array\((.*?)\)', text, re.S):
        body = re.sub(r',\s*(dtype|shape)=.*', '', m.group(1), flags=re.S).strip()
        if not re.fullmatch(r'[\[\]\d,\s-]*', body):
            out.append(None)
            continue
        try:
            out.append(tuple(tuple(r) for r in eval(body, {'__builtins__': {}})))
        except Exception:
            out.append(None)
    return out
