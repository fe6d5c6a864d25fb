"""T15, T16, C29: templates, the generator of the legend, and terminal helpers."""
import contextlib
import fcntl
import gc
import io
import os
import pty
import select
import shutil
import signal
import struct
import subprocess
import sys
import termios
import threading
import time

from hypothesis import strategies as st

from vlib import app, gen, term
from vlib.app import REPO
from vlib.core import Violation, check
from vlib.lib import load
from vlib.view import need

from .cli import look_up, sigils
from .sgr import NAMES

# ------------------------------------------------------------------------------------------------ T15

_PLAIN = [chr(c) for c in range(32, 127) if chr(c) not in '#^:{}'] + list('\n\n\t\r\x1b\x00·─世🐍\u2028\x85\xa0')
_text = st.lists(st.sampled_from(_PLAIN), max_size=8).map(''.join)
# pieces which look like tags without being ones (each begins and ends with something harmless)
_ALMOST = [' {a} ', ' ^{a b} ', ' :{a b} ', ' :{} ', ' :{ } ', ' :{a;b} ', ' ^{1,2} ', ' ^ {} ', ' : {a} ', ' {}# x ', ' # {}x{}# ', ' ^{a | ', ' :{a | ', ' a} ', ' ^{1-2} ', ' :{a-b} ', ' ^{{a}} ',
           ' :{{a}} ', ' ^{a} '.replace('a', '+'), ' #{ }x{ }# ', ' ^(1) ', ' $[a] ', ' { } ', ' ^ ', ' : ', ' # ', ' ## ', ' ^^ ', ' :: ', ' {{ ', ' }} ', ' \\^ ', ' 1:2 ', ' #{}x\ny{}# ']
_SPACE = ['', '', '', ' ', '  ', '\t', '\n', ' \n ']
_VALUES = ['', 'x', 'value', '\\1', '\\g<0>', '\\n', ':{a}', '^{1}', '^{}', ' :{ver} ', '#{}x{}#', '\x1b[1m', '{}', '世', 'a\nb', '%s', 0, 1, -1, 1.5, None, True, [1, 2]]
_VARS = ['a', 'b', 'ver', 'fmt_cc', 'ex_1', '_', '1', '42', 'A', 'name_2', 'x' * 20, 'имя']
_blank = lambda: st.sampled_from(_SPACE)


@st.composite
def _tag(draw, names):
    """[text of the template, what it stands for as a list of variable names ['v', name] and fixed text, warned]"""
    k = draw(st.integers(0, 9))
    sp, sp2 = draw(_blank()), draw(_blank())
    if k == 0:
        inner = draw(st.one_of(_text, st.sampled_from(['', ' ', 'a', ':{a}', '^{1}', '^{}', ' #', '{}', '{ }', '#', ':{ a }^{bold}', '#{}']))).replace('\n', ' ').replace('{}#', '')
        return ['#{}' + inner + '{}#', '', False]
    if k in (1, 2, 3, 4):
        params, codes, bad = [], [], False
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
            how = draw(st.integers(0, 11))
            if how < 5:
                name, code = draw(st.sampled_from(sorted(NAMES.items())))
                params.append(''.join(draw(st.sampled_from([c.upper(), c.lower()])) for c in name))
                codes.append(code)
            elif how < 10:
                code = draw(st.one_of(st.integers(0, 107), st.sampled_from([0, 38, 48, 5, 255, 1000])))
                params.append(draw(st.sampled_from(['', '', '', '0', '00'])) + str(code))
                codes.append(code)
            else:
                params.append(draw(st.sampled_from(['', 'nothing', 'bolt', 'a', '_', 'bg', '1a', 'x1', 'bold_', 'br0wn'])))
                bad = True
        spec = ';'.join(params)
        src = '^{' + sp + spec + sp2 + '}'
        if not spec:
            return [src, '\x1b[m', False]
        if codes == [0]:      # the same sequence, in short
            return [src, src if bad else '\x1b[m', bad]
        return [src, src if bad else '\x1b[' + ';'.join(map(str, codes)) + 'm', bad]
    if k in (5, 6, 7):
        name = draw(st.sampled_from(names)) if names and draw(st.integers(0, 4)) else draw(st.sampled_from(_VARS))
        src = ':{' + sp + name + sp2 + '}'
        return [src, ['v', name, src], False]
    if k == 8:
        src = draw(st.sampled_from(_ALMOST))
        return [src, src, False]
    src = draw(_text)
    return [src, src, False]


@st.composite
def _templates(draw):
    rounds = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        given = {n: draw(st.sampled_from(_VALUES)) for n in draw(st.lists(st.sampled_from(_VARS), max_size=5, unique=True))}
        names = sorted(given)
        rounds.append([given, draw(st.lists(_tag(names), max_size=12))])
    return rounds


def _processor():
    dev = os.path.join(REPO, 'dev')
    if dev not in sys.path:
        sys.path.insert(0, dev)
    return load('es7s_tpl_processor').Es7sTemplateProcessor()


@check('T15', _templates, quick=24000, thorough=800000,
       rule='sequences of templates composed of text, comments, format and variable tags (with blanks, known and unknown names, numbers) and things that look like tags, with random variables; non-trivial: at least two tags of '
            'different kinds are substituted')
def t15(case, ctx):
    proc = _processor()
    current = {}
    kinds = set()
    for given, tags in case:
        src = ''.join(t[0] for t in tags)
        if given:
            current = given
        want, warned = '', 0
        for s, out, bad in tags:
            if isinstance(out, list):
                if out[1] in current:
                    want += str(current[out[1]])
                    kinds.add('v')
                else:
                    want += out[2]
                    warned += 1
            else:
                want += out
                warned += bad
                if out != s:
                    kinds.add(s[0])
        err, stdout = io.StringIO(), io.StringIO()
        before = dict(given)
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(stdout):
            got = proc.substitute(src, given) if given else proc.substitute(src)
        need(got == want, lambda: f'{src!r} with {current!r}: got {got!r}, expected {want!r}')
        need(given == before, 'the variables were changed')
        lines = [x for x in err.getvalue().split('\n') if x]
        # a name may hold a line break (blanks are not part of it), so just count
        need(len(lines) == warned, lambda: f'{src!r} with {current!r}: {warned} tags cannot be substituted, warnings: {lines!r}')
        need(not stdout.getvalue(), 'something was printed')
        if warned:
            ctx.label('warned')
    ctx.nontrivial(len(kinds) >= 2)
    ctx.label(f'{len(case)} templates')


# ------------------------------------------------------------------------------------------------ C29

_generated = None


def generated():
    """The legend made by the generator in a scratch copy, for a terminal."""
    global _generated
    if _generated is None:
        try:
            _generated = _generate()
        except Violation as e:      # the generator is run once: it always fails
            _generated = e
        finally:
            shutil.rmtree(os.path.join(app.scratch(), 'generator'), ignore_errors=True)
    if isinstance(_generated, Violation):
        raise Violation(str(_generated))
    return _generated


def _generate():
    root = os.path.join(app.scratch(), 'generator')
    for d in ('kolombos', 'pytermor', 'dev'):
        shutil.copytree(os.path.join(REPO, d), os.path.join(root, d), ignore=shutil.ignore_patterns('__pycache__', 'diagrams', 'runConfigurations'))
    out = os.path.join(root, 'kolombos', 'legend.ansi')
    os.remove(out)
    master, slave = pty.openpty()
    env = {**app.base_env(), 'PYTHONPATH': root, 'TERM': 'xterm-256color', 'COLORTERM': 'truecolor'}

    def drain():
        try:
            while os.read(master, 65536):
                pass
        except OSError:
            pass

    threading.Thread(target=drain, daemon=True).start()
    try:
        p = subprocess.run([sys.executable, os.path.join(root, 'dev', 'generate_legend.py')], stdin=subprocess.DEVNULL, stdout=slave, stderr=subprocess.PIPE, env=env, cwd=root, timeout=240)
    except subprocess.TimeoutExpired:
        raise Violation('the generator does not end')
    finally:
        os.close(slave)
        os.close(master)
    err = p.stderr.decode(errors='replace')
    need(p.returncode == 0 and os.path.isfile(out), lambda: f'the generator ended with {p.returncode}: {err[-400:]}')
    need('WARN' not in err and 'Traceback' not in err, lambda: f'the generator complains: {err[-400:]}')
    with open(out, encoding='utf-8') as f:
        text = f.read()
    return text, sigils(text)


_TAG_REMAINS = ['#{}', '{}#', '^{', ':{']


@check('C29', lambda: st.fixed_dictionaries({'data': st.one_of(gen.data(8), gen.data(8, extra=gen.any_escape()), st.binary(min_size=1, max_size=12)),
                                             'o': gen.opts().map(lambda o: {**o, 'ignore': [], 'color_markers': False})}),
       quick=1500, thorough=30000,
       rule='random input x options; every sigil of the picture is looked up, with its colors, in a legend generated from the current tree (in a scratch copy); non-trivial: at least three different sigils')
def c29(case, ctx):
    text, cells = generated()
    visible = '\n'.join(r.text for r in term.parse(text).rows)
    for x in _TAG_REMAINS:
        need(x not in visible, lambda: f'the generated legend still has {x}')
    look_up(case, ctx, cells)


# ------------------------------------------------------------------------------------------------ T16

_KEYS = list('aZ0 ~\n\t\x01\x02\x07\x08\x0c\x0e\x1b\x7fq') + ['\x00', '\x80', 'é', 'я', '世', '🐍', '\u2028', '\r', '\x03', '\x04', '\x1a', '\x11', '\x13', '\x16', '\x15']
_FLAGS = {'ICANON': 3, 'ECHO': 3, 'ISIG': 3, 'IEXTEN': 3, 'ECHOE': 3, 'ECHOK': 3, 'ECHONL': 3, 'ECHOCTL': 3, 'NOFLSH': 3, 'TOSTOP': 3, 'ICRNL': 0, 'INLCR': 0, 'IXON': 0, 'IUTF8': 0, 'OPOST': 1, 'ONLCR': 1, 'PARENB': 2, 'CSTOPB': 2}
_IUTF8 = 0o40000


def _flag(name):
    return _IUTF8 if name == 'IUTF8' else getattr(termios, name)


@st.composite
def _terminal_case(draw):
    if draw(st.integers(0, 2)) == 0:
        return {'kind': 'width', 'columns': draw(st.one_of(st.none(), st.integers(1, 500), st.sampled_from(['0', '', 'x', '-5', '1', '2', '3', ' 80', '100000']))), 'tty': draw(st.one_of(st.none(), st.integers(0, 400), st.just(65535)))}
    flags = {f: draw(st.booleans()) for f in _FLAGS if f not in ('ICANON', 'ECHO', 'IXON', 'ISIG', 'INLCR', 'ICRNL')}
    flags.update(ICANON=draw(st.integers(0, 3)) > 0, ECHO=draw(st.integers(0, 3)) > 0, IXON=False, ISIG=False, INLCR=False, ICRNL=draw(st.booleans()), IEXTEN=False)
    keys = [k for k in _KEYS if k != '\r' or flags['ICRNL']]      # standard input keeps back a CR until it knows what follows
    return {'kind': 'key', 'flags': flags, 'keys': draw(st.lists(st.sampled_from(keys), min_size=1, max_size=3)), 'interrupt': draw(st.integers(0, 3)) == 3 and (flags['ICANON'] or flags['ECHO']), 'erase': draw(st.sampled_from([0x7f, 8])), 'batch': draw(st.sampled_from([(1, 0), (1, 0), (0, 0), (0, 1), (2, 0), (3, 1), (5, 5), (1, 2)]))}


def _child(master, slave, wfd, case, wait_key):
    """Waits for keys on the terminal and reports what it got."""
    code = 1
    try:
        os.close(master)
        gc.disable()
        gc.callbacks.clear()        # an interrupt in a callback is lost
        signal.signal(signal.SIGINT, signal.default_int_handler)
        signal.alarm(100)
        sys.stdin = open(slave, encoding='utf-8', closefd=False)
        for _ in range(len(case['keys']) + case['interrupt']):
            try:
                got = wait_key()
                msg = 'got ' + ascii(got)
            except KeyboardInterrupt:
                msg = 'interrupted'
            os.write(wfd, msg.encode() + b'\n')
        code = 0
    except BaseException as e:
        os.write(wfd, f'failed: {type(e).__name__}: {e}'.replace('\n', ' ').encode() + b'\n')
    finally:
        os._exit(code)


def _until(cond, what, seconds=40):
    end = time.monotonic() + seconds
    pause = 0.0002
    while not cond():
        need(time.monotonic() < end, what)
        time.sleep(pause)
        pause = min(pause * 2, 0.02)


def _asleep(pid):
    """The process waits for something (its input)."""
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rsplit(')', 1)[1].split()[0] in 'SZ'
    except OSError:
        return True


def _keys(case, ctx):
    wait_key = load('pytermor.common').wait_key
    master, slave = os.openpty()
    pid = None
    rfd, wfd = os.pipe()
    try:
        attrs = termios.tcgetattr(slave)
        for name, on in case['flags'].items():
            i = _FLAGS[name]
            attrs[i] = attrs[i] | _flag(name) if on else attrs[i] & ~_flag(name)
        attrs[6][termios.VERASE] = bytes([case['erase']])
        vmin, vtime = case.get('batch', (1, 0))
        attrs[6][termios.VMIN], attrs[6][termios.VTIME] = (bytes([vmin]), bytes([vtime])) if case['flags']['ICANON'] else (vmin, vtime)
        termios.tcsetattr(slave, termios.TCSANOW, attrs)
        before = termios.tcgetattr(slave)
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            _child(master, slave, wfd, case, wait_key)
        os.close(wfd)
        wfd = None
        echoed = b''
        visible = case['flags']['ICANON'] or case['flags']['ECHO']

        def report():
            need(select.select([rfd], [], [], 30)[0], lambda: f'the key is not returned ({typed!r} typed, {case["flags"]})')
            line = b''
            while not line.endswith(b'\n'):
                part = os.read(rfd, 1)
                if not part:
                    break
                line += part
            return line.decode().strip()

        def plain_mode():
            return not termios.tcgetattr(slave)[3] & (termios.ICANON | termios.ECHO)

        for n, key in enumerate(case['keys'] + [None] * case['interrupt']):
            typed = key
            if visible:
                _until(plain_mode, 'the terminal still waits for Enter or shows what is typed')
            if key is None:
                # the mode is switched right before the reading starts, so give it a moment
                _until(lambda: _asleep(pid), 'does not wait for a key')
                time.sleep(0.002)
                os.kill(pid, signal.SIGINT)
                want = 'interrupted'
            else:
                os.write(master, key.encode())
                if key == '\r' and case['flags']['ICRNL']:
                    key = '\n'
                want = 'got ' + ascii(key)
            got = report()
            need(got == want, lambda: f'{typed!r} typed: {got}, expected: {want}; {case["flags"]}')
        _, status = os.waitpid(pid, 0)
        pid = None
        need(status == 0, f'ended with status {status}')
        after = termios.tcgetattr(slave)
        need(after == before, lambda: f'terminal settings are not restored: {before} became {after}')
        while select.select([master], [], [], 0)[0]:
            echoed += os.read(master, 1000)
        need(not echoed, lambda: f'{echoed!r} is shown')
        ctx.nontrivial(visible)
        ctx.label('key', 'interrupted' if case['interrupt'] else 'regular')
    finally:
        if pid:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        for fd in (master, slave, rfd, wfd):
            if fd is not None:
                os.close(fd)


def _width(case, ctx):
    common, lib = load('kolombos.common'), load('pytermor.common')
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.environ.pop('COLUMNS', None)
            if case['columns'] is not None:
                os.environ['COLUMNS'] = str(case['columns'])
            if case['tty'] is None:
                os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
            else:
                master, slave = os.openpty()
                fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', 24, case['tty'], 0, 0))
                os.dup2(slave, 1)
            out = f'{lib.get_terminal_width()} {common.get_terminal_width()} {common.get_terminal_width(exact=True)}'
        except BaseException as e:
            out = f'{type(e).__name__}: {e}'
        os.write(wfd, out.encode())
        os._exit(0)
    os.close(wfd)
    with open(rfd) as f:
        got = f.read()
    os.waitpid(pid, 0)
    try:
        c = int(case['columns'])
    except (TypeError, ValueError):
        c = 0
    c = c if c > 0 else case['tty'] or 80
    need(got == f'{c - 2} {c - 2} {c}', lambda: f'COLUMNS {case["columns"]!r}, terminal {case["tty"]!r}: widths are {got}, expected {c - 2} {c - 2} {c}')
    ctx.nontrivial(case['columns'] is None and case['tty'])
    ctx.label('width')


@check('T16', _terminal_case, quick=4000, thorough=60000, timing=True,
       rule='keys typed one after another on pseudo terminals with random settings, with or without an interrupt; widths from the environment and from terminals; non-trivial: the terminal waits for Enter or echoes to begin with, '
            'or the width is that of the terminal')
def t16(case, ctx):
    (_keys if case['kind'] == 'key' else _width)(case, ctx)
