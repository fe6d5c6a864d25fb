"""Client side of the fork server: run(argv, stdin) -> Result."""
import atexit
import os
import pickle
import shutil
import struct
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))


class HarnessError(Exception):
    """Something is wrong with the harness or with the build, not with the property."""


class Hang(BaseException):
    """The application used up its CPU or output budget (do not shrink those)."""


class Result:
    __slots__ = ('code', 'signal', 'out', 'err', 'argv')

    def __init__(self, argv, code, signal, out, err):
        self.argv, self.code, self.signal, self.out, self.err = argv, code, signal, out, err

    @property
    def text(self):
        return self.out.decode('utf-8', errors='surrogateescape')

    @property
    def errtext(self):
        return self.err.decode('utf-8', errors='surrogateescape')

    def __repr__(self):
        return f'Result(argv={self.argv!r}, code={self.code}, signal={self.signal}, out={self.out[:400]!r}, err={self.err[-400:]!r})'


_proc = None
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='kolv', dir=base)
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def base_env():
    env = {k: v for k, v in os.environ.items() if not k.startswith(('PYTHON', 'COLUMNS', 'LINES', 'LC_', 'LANG'))}
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONHASHSEED='0',
               PYTHONIOENCODING='utf-8', COLUMNS='80', LINES='24', PYTHONWARNINGS='ignore')
    return env


def _start():
    global _proc
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    p = subprocess.Popen([sys.executable, os.path.join(HERE, 'zygote.py'), str(r1), str(w2)], pass_fds=(r1, w2),
                         env=base_env(), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                         cwd=scratch())
    os.close(r1)
    os.close(w2)
    _proc = (p, w1, r2)
    try:
        hello = _recv(r2)
    except EOFError:
        raise HarnessError('fork server did not start: ' + p.stderr.read().decode(errors='replace')[-2000:])
    if not os.path.realpath(hello['path']).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'kolombos imported from {hello["path"]}, not from {REPO}')
    atexit.register(p.kill)


def _recv(fd):
    def exact(n):
        buf = bytearray()
        while len(buf) < n:
            part = os.read(fd, min(n - len(buf), 1 << 20))
            if not part:
                raise EOFError
            buf += part
        return bytes(buf)
    size, = struct.unpack('<I', exact(4))
    return pickle.loads(exact(size))


runs = 0


def run(argv, stdin=b'', columns=80, env=None, **kw):
    """Execute the app once. ``columns`` None removes COLUMNS from the environment."""
    global runs
    if _proc is None:
        _start()
    runs += 1
    e = {'COLUMNS': None if columns is None else str(columns)}
    e.update(env or {})
    req = dict(argv=list(argv), stdin=stdin, env=e, **kw)
    raw = pickle.dumps(req, protocol=4)
    raw = struct.pack('<I', len(raw)) + raw
    view = memoryview(raw)
    while view:
        view = view[os.write(_proc[1], view):]
    try:
        resp = _recv(_proc[2])
    except EOFError:
        raise HarnessError('fork server died: ' + _proc[0].stderr.read().decode(errors='replace')[-2000:])
    if resp['code'] == 99:
        raise HarnessError('child setup failed: ' + resp['err'].decode(errors='replace')[-2000:])
    res = Result(list(argv), **resp)
    if resp['signal'] in (24, 9) or len(res.out) >= (255 << 20):   # SIGXCPU/SIGKILL by the CPU limit, or endless output
        raise Hang(f'no termination: signal={resp["signal"]}, {len(res.out)} bytes of output; argv={argv!r} stdin={stdin[:200]!r}')
    return res


def ok(argv, stdin=b'', **kw):
    """Run and require a clean success."""
    from .core import Violation
    res = run(argv, stdin, **kw)
    if res.code != 0 or res.err:
        raise Violation(f'expected a clean run, got exit code {res.code}, stderr {res.errtext[-500:]!r}; argv={argv!r}')
    return res
