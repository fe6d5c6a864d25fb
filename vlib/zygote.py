"""Fork server: runs the kolombos command line (through its public entry point) once per request.

Started as a separate interpreter with PYTHONPATH=<repo>.  For every request a child is forked; the child
gets real file descriptors for stdin/stdout/stderr, its own environment and working directory, resource
limits, and then calls ``kolombos.__main__.main()``.  The parent never touches application state.

Protocol (fd numbers given in argv): 4-byte length + pickle, both ways.
"""
import io
import os
import pickle
import resource
import select
import signal
import struct
import sys
import time
import traceback

CPU_LIMIT = 60            # seconds of CPU; a normal case needs milliseconds, the largest generated ones up to 17 s
OUT_LIMIT = 256 << 20     # bytes
MEM_LIMIT = 3 << 30


def _read_exact(fd, n):
    buf = b''
    while len(buf) < n:
        part = os.read(fd, n - len(buf))
        if not part:
            raise SystemExit(0)
        buf += part
    return buf


def _send(fd, obj):
    raw = pickle.dumps(obj, protocol=4)
    raw = struct.pack('<I', len(raw)) + raw
    view = memoryview(raw)
    while view:
        view = view[os.write(fd, view):]


def _slurp(fd):
    os.lseek(fd, 0, os.SEEK_SET)
    out = []
    while True:
        part = os.read(fd, 1 << 20)
        if not part:
            return b''.join(out)
        out.append(part)


def _streams():
    """New standard streams: the ones of the server remember properties (seekable, terminal) of other files."""
    for i, name in enumerate(('stdin', 'stdout')):
        old = getattr(sys, name)
        raw = io.FileIO(i, 'rw'[i], closefd=False)
        raw.name = f'<{name}>'
        new = io.TextIOWrapper((io.BufferedWriter if i else io.BufferedReader)(raw), encoding=old.encoding, errors=old.errors,
                               newline='\n' if i else None, line_buffering=bool(i and raw.isatty()))
        new.mode = 'rw'[i]
        _KEEP.append(old)
        setattr(sys, name, new)
        setattr(sys, f'__{name}__', new)


_KEEP = []


def _child(main, req, ofd, efd):
    closed = req.get('stdin_mode', 'file')
    data = req.get('stdin', b'')
    fifo = req.get('fifo')
    if closed == 'file' or closed == 'nothing':
        ifd = os.memfd_create('in')
        view = memoryview(data)
        while view:
            view = view[os.write(ifd, view):]
        os.lseek(ifd, 0, os.SEEK_SET)
    elif closed == 'broken':     # the data is followed by a read error: memory of this process that ends at an unmapped page
        ifd = _broken(data)
    else:  # 'pipe' (data written in pieces by a helper process), also used for FIFOs
        ifd, wfd = os.pipe()
        if os.fork() == 0:
            os.close(ifd)
            if closed == 'endless':
                _endless(wfd, data)
            _feed(wfd, data, req.get('pieces') or [], closed == 'interrupt' and fifo is None, 0.003 if req.get('nonblock') else 0)
        os.close(wfd)
        if req.get('nonblock'):
            os.set_blocking(ifd, False)
    if fifo is not None:
        if os.fork() == 0:
            os.close(ifd)
            signal.alarm(60)
            _feed(os.open(fifo['path'], os.O_WRONLY), fifo['data'], fifo.get('pieces') or [], closed == 'interrupt')
    if closed == 'interrupt':
        signal.signal(signal.SIGINT, signal.default_int_handler)
    os.dup2(ifd, 0)
    if req.get('stdout_mode') == 'full':
        os.dup2(os.open('/dev/full', os.O_WRONLY), 1)
    elif req.get('stdout_mode') in ('pipe', 'tty'):       # a reader that leaves after some bytes
        os.dup2(req['out_fd'], 1)
        os.close(req['out_fd'])
    else:
        os.dup2(ofd, 1)
    os.dup2(efd, 2)
    _streams()
    if closed == 'nothing':      # as the interpreter does when the descriptor is not open
        os.close(0)
        os.close(ifd)
        sys.stdin = sys.__stdin__ = None
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 1))
    resource.setrlimit(resource.RLIMIT_FSIZE, (OUT_LIMIT, OUT_LIMIT))
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXCPU, signal.SIG_DFL)
    for key, val in (req.get('env') or {}).items():
        if val is None:
            os.environ.pop(key, None)
        else:
            os.environ[key] = val
    if req.get('cwd'):
        os.chdir(req['cwd'])
    sys.argv = ['kolombos'] + [os.fsdecode(a) if isinstance(a, bytes) else a for a in req['argv']]
    try:
        main()
        code = 0
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xff
        else:
            sys.stderr.write(f'{e.code}\n')
            code = 1
    except BaseException:
        traceback.print_exc()
        code = 1
    for stream in (sys.stdout, sys.stderr):
        try:
            stream.flush()
        except Exception as e:       # as the interpreter does
            os.write(2, f'Exception ignored in: {stream!r}\n{type(e).__name__}: {e}\n'.encode())
            code = 120
    os._exit(code)


def _terminal(size):
    """A terminal of so many columns and rows which passes everything through."""
    import fcntl
    import termios
    import tty
    master, slave = os.openpty()
    tty.setraw(slave)
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', size[1], size[0], 0, 0))
    return master, slave


def _take(rfd, ofd, n):
    while n > 0:
        try:
            part = os.read(rfd, min(n, 65536))
        except OSError:     # end of the terminal
            break
        if not part:
            break
        os.write(ofd, part)
        n -= len(part)
    os._exit(0)


def _broken(data):
    """A descriptor that yields the data and then EIO: own memory, mapped from a file that ends before the mapping does."""
    import ctypes
    import mmap
    page = mmap.PAGESIZE
    n = (len(data) + page - 1) // page + 1
    mfd = os.memfd_create('mem')
    os.ftruncate(mfd, n * page)
    os.pwrite(mfd, data, n * page - len(data))
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mmap.restype = ctypes.c_void_p
    addr = libc.mmap(None, ctypes.c_size_t((n + 1) * page), mmap.PROT_READ, mmap.MAP_SHARED, mfd, ctypes.c_long(0))
    if addr in (None, ctypes.c_void_p(-1).value):
        raise OSError(ctypes.get_errno(), 'mmap')
    fd = os.open('/proc/self/mem', os.O_RDONLY)
    os.lseek(fd, addr + n * page - len(data), os.SEEK_SET)
    return fd


def _wait_taken(wfd):
    """Until the reader has taken what is in the pipe (it is then given the next piece by another read)."""
    import fcntl
    import termios
    poll = select.poll()
    poll.register(wfd, 0)
    end = time.monotonic() + 5
    while time.monotonic() < end and struct.unpack('i', fcntl.ioctl(wfd, termios.FIONREAD, b'\0' * 4))[0] and not poll.poll(0):
        time.sleep(0.0002)


def _wait_idle(pid):
    """Until the process has nothing to do but to wait for input."""
    last, end = None, time.monotonic() + 20
    while time.monotonic() < end:
        with open(f'/proc/{pid}/stat', 'rb') as f:
            fields = f.read().rsplit(b') ', 1)[1].split()
        cur = fields[0] == b'S' and fields[11:13]
        if cur and cur == last:
            return
        last = cur
        time.sleep(0.001)


def _feed(wfd, data, pieces, interrupt=False, pause=0):
    try:
        if interrupt:       # everything is given, and when the application waits for more, it is interrupted
            pieces = list(pieces) + [max(1, len(data) - sum(pieces))]
            signal.alarm(60)
        pos = 0
        for size in pieces:
            part = data[pos:pos + size]
            if part:
                os.write(wfd, part)
                _wait_taken(wfd)
                time.sleep(pause)
            pos += size
        if interrupt:
            pid = os.getppid()
            _wait_idle(pid)
            os.kill(pid, signal.SIGINT)
            poll = select.poll()        # the writing end stays open until the application closes its own
            poll.register(wfd, 0)
            poll.poll(5000)
            os._exit(0)
        view = memoryview(data)[pos:]
        while view:
            view = view[os.write(wfd, view):]
    except OSError:
        pass
    os._exit(0)


def _endless(wfd, data):
    """The data again and again, as long as there is a reader."""
    signal.alarm(200)
    data *= 65536 // len(data) + 1
    try:
        while True:
            os.write(wfd, data)
    except OSError:
        os._exit(0)


def serve(rfd, wfd):
    from kolombos.__main__ import main
    import kolombos
    import gc
    gc.collect()
    gc.freeze()
    _send(wfd, {'ready': True, 'path': kolombos.__file__})
    while True:
        size, = struct.unpack('<I', _read_exact(rfd, 4))
        req = pickle.loads(_read_exact(rfd, size))
        ofd = os.memfd_create('out')
        efd = os.memfd_create('err')
        taker = None
        if req.get('stdout_mode') in ('pipe', 'tty'):
            ord_, req['out_fd'] = os.pipe() if req['stdout_mode'] == 'pipe' else _terminal(req['size'])
            taker = os.fork()
            if taker == 0:
                os.close(req['out_fd'])
                _take(ord_, ofd, req['take'])
            os.close(ord_)
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                os.close(wfd)
                _child(main, req, ofd, efd)
            except BaseException:
                traceback.print_exc()
            os._exit(99)
        if taker:
            os.close(req['out_fd'])
        _, status = os.waitpid(pid, 0)
        if taker:
            os.waitpid(taker, 0)
        resp = {
            'code': os.WEXITSTATUS(status) if os.WIFEXITED(status) else None,
            'signal': os.WTERMSIG(status) if os.WIFSIGNALED(status) else None,
            'out': _slurp(ofd),
            'err': _slurp(efd),
        }
        os.close(ofd)
        os.close(efd)
        _send(wfd, resp)


if __name__ == '__main__':
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    serve(int(sys.argv[1]), int(sys.argv[2]))
