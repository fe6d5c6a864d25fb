"""C18, C20, C22, C25: the command line itself."""
import os
import re
import subprocess
import sys
import unicodedata

from hypothesis import strategies as st

from vlib import app, gen, view, model as M, term
from vlib.core import check, Violation
from vlib.view import need
from checks.stream import picture, debug_rows


# ------------------------------------------------------------------------------------------------ C18

_names = st.text(st.one_of(st.characters(codec='utf-8', exclude_characters='/\x00', exclude_categories=['Cs']), st.sampled_from('\x1b\x07\r\n\x9b\x7f[31m"\'\\')), min_size=1, max_size=10)\
    .filter(lambda s: s not in ('.', '..') and not s.startswith('-'))
_badnum = st.sampled_from(['', 'x', '1.5', '0x10', '1e3', '--', '16b', 'ten', '9'*5 + 'k'])
_valued = ['-f', '--buffer', '-L', '--max-lines', '-B', '--max-bytes', '-m', '--marker', '-w', '--columns']
_exclusive = [[x, y] for f, n in (('s', 'space'), ('c', 'control'), ('p', 'printable'), ('e', 'esc'), ('u', 'utf8'), ('i', 'binary'))
              for x in ('-' + f, '--focus-' + n) for y in ('-' + f.upper(), '--ignore-' + n)] + \
             [[x, y] for x in ('-t', '--text') for y in ('-b', '--binary')] + [['--decimal-offsets', '--no-offsets']]


@st.composite
def _bad_usage(draw):
    k = draw(st.integers(0, 4))
    if k == 0:
        return draw(st.sampled_from([['-Z'], ['--foo'], ['-x3'], ['--no-such-option=1'], ['--hide'], ['-bx'], ['--focus']]))
    if k == 1:
        o, v = draw(st.sampled_from(_valued)), draw(_badnum)
        return [o + '=' + v] if o.startswith('--') and draw(st.booleans()) else [o, v]
    if k == 2:
        return ['!last', draw(st.sampled_from(_valued))]
    if k == 3:
        return ['one.txt', 'two.txt']
    return draw(st.sampled_from(_exclusive).flatmap(st.permutations))


@st.composite
def _failures(draw):
    kind = draw(st.sampled_from(['missing', 'missing', 'directory', 'unreadable', 'nostdin', 'broken', 'broken', 'usage', 'usage', 'usage']))
    o = draw(gen.opts())
    case = {'kind': kind, 'o': o, 'debug': draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4])), 'name': draw(_names), 'bad': [], 'data': b'', 'buffer': None, 'sub': draw(st.sampled_from(['', 'no/such/dir', 'file.txt']))}
    if kind == 'usage':
        case['bad'] = draw(_bad_usage())
        case['o'] = {'binary': False} if draw(st.booleans()) else {**o, 'focus': [], 'ignore': []}
        case['data'] = draw(gen.data(3))
    elif kind == 'broken':
        case['data'] = draw(st.one_of(gen.data(20), gen.data(20, extra=gen.lines())))
        case['buffer'] = draw(st.one_of(st.integers(1, 40), st.integers(1, 10)))
    else:
        case['more'] = draw(st.sampled_from([[], [], ['-f', '1'], ['-f', '5000'], ['-L', '1'], ['-B', '1'], ['-L', '0', '-B', '0']]))
    return case


NO_TRACE = (b'Traceback', b'File "')


def _clean(s):
    """Nothing that controls a terminal."""
    return all(c == '\n' or unicodedata.category(c) not in ('Cc', 'Cs') for c in s)


@check('C18', _failures, quick=1500, thorough=30000,
       rule='missing files, directories, files that cannot be read, no standard input, input that breaks in the middle, malformed command lines x options; '
            'non-trivial: a malformed command line, an odd file name, or a break after at least one complete row')
def c18(case, ctx):
    kind, o = case['kind'], case['o']
    ctx.label(kind)
    if kind == 'usage':
        bad = list(case['bad'])
        last = []
        if bad and bad[0] == '!last':
            bad, last = [], bad[1:]
        argv = (['-b'] if o['binary'] and not {'-t', '--text', '-b', '--binary'} & set(bad) else []) + [a for a in gen.argv(o) if a != '-b'] + bad + last
        if bad == ['--decimal-offsets', '--no-offsets'] or bad == ['--no-offsets', '--decimal-offsets']:
            argv = [a for a in argv if a not in bad] + bad
        res = app.run(argv, case['data'])
        need(res.code == 2, lambda: f'malformed command line {argv} ends with exit code {res.code}')
        need(res.out == b'', lambda: f'malformed command line {argv} prints {res.out[:200]!r} on stdout')
        need(b'error' in res.err.lower() and not any(t in res.err for t in NO_TRACE), lambda: f'malformed command line {argv}: stderr is {res.err[-300:]!r}')
        ctx.nontrivial()
        return
    debug = case.get('debug', 0)
    argv = gen.argv(o) + ['-' + 'D' * debug] * bool(debug)
    rows_of = debug_rows if debug else lambda res: view.finish(term.parse(res.text))
    full_rows, least = [], 0
    if kind == 'broken':
        size = gen.fit(case['buffer'], case['data'], debug > 0)
        argv += ['-f', str(size)]
        least = _complete(case['data'], size, o)
        full = app.ok(argv, case['data'])
        full_rows = rows_of(full)
        res = app.run(argv, case['data'], stdin_mode='broken')
        names = ('OSError',)
    else:
        d = os.path.join(app.scratch(), 'c18')
        os.makedirs(os.path.join(d, 'dir'), exist_ok=True)
        open(os.path.join(d, 'file.txt'), 'wb').close()
        if kind == 'missing':
            path = os.path.join(d, case['sub'], 'x' + case['name'])
            names = ('NotADirectoryError',) if case['sub'] == 'file.txt' else ('FileNotFoundError',)
        elif kind == 'directory':
            path, names = os.path.join(d, 'dir'), ('IsADirectoryError',)
        else:
            path, names = ('-', ('Error',)) if kind == 'nostdin' else ('/proc/self/mem', ('OSError',))
        if len(os.fsencode(path.rsplit('/', 1)[-1])) > 255:
            return
        res = app.run(argv + case.get('more', []) + [path], b'other data', stdin_mode='nothing' if kind == 'nostdin' else 'file')
    need(res.code == 1, lambda: f'{kind}: exit code is {res.code}; stderr {res.errtext[-300:]!r}')
    err = term.strip_sgr(res.errtext)
    need('ERROR' in err and any(n in err for n in names), lambda: f'{kind}: stderr is {err!r}')
    need(debug or not any(t in res.err or t in res.out for t in NO_TRACE), lambda: f'{kind}: a traceback is printed without --debug')
    need(not debug or b'Traceback' in res.out + res.err, lambda: f'{kind}: no traceback in debug mode')
    need(_clean(err), lambda: f'control characters in the error message: {err!r}')
    if debug:
        need(_clean(term.strip_sgr(res.text).replace('\t', ' ')), 'control characters in the debug output')
        shown = debug_rows(res)
        _before_failure(kind, shown, full_rows, least)
        ctx.nontrivial(bool(shown) or kind != 'broken')
        return
    rows = picture(res)
    hint = [i for i, r in enumerate(rows) if '--debug' in r.text and 'Run the app' in r.text]
    need(hint, lambda: f'{kind}: no hint about --debug: {[r.text for r in rows][-3:]}')
    shown = rows[:hint[-1]]
    _before_failure(kind, shown, full_rows, least)
    ctx.nontrivial(bool(shown) or kind == 'missing' and not case['name'].isalnum())


def _complete(data, size, o):
    """How many rows, at least, depend only on complete reads."""
    part = data[:len(data) // size * size]
    if not o['binary']:
        return part.count(b'\n')
    held = 3
    esc = part.rfind(b'\x1b')
    if esc >= 0 and all(0x20 <= c <= 0x3f for c in part[esc + 1:].replace(b'[', b'', 1)):
        held = max(held, len(part) - esc)
    return max(0, len(part) - held) // o['columns']


def _before_failure(kind, shown, full_rows, least=0):
    if kind != 'broken':
        need(not shown, lambda: f'{kind}: rows are printed: {view.show(shown[0])}')
        return
    need(len(shown) >= least, lambda: f'{len(shown)} rows are shown before the failure, although {least} are complete')
    # everything shown before the failure is right
    need(len(shown) <= len(full_rows), lambda: f'{len(shown)} rows before the failure, {len(full_rows)} in all')
    for i, (g, w) in enumerate(zip(shown, full_rows)):
        view.same_cells(g, w, f'row {i + 1} before the failure')


# ------------------------------------------------------------------------------------------------ C26

@st.composite
def _unwritable(draw):
    what = draw(st.integers(0, 9))
    d = draw(st.one_of(gen.data(6), gen.mixed_data(30), gen.mixed_data(30, around=(2000, 4096)), gen.long_data(3000)))
    return {'data': d, 'o': draw(gen.opts()), 'debug': draw(st.sampled_from([0, 0, 0, 1, 3])), 'how': draw(st.sampled_from(['full', 'pipe', 'pipe', 'pipe'])),
            'endless': what < 6 and draw(st.integers(0, 19)) == 0,
            'take': draw(st.one_of(st.just(0), st.integers(0, 200), st.integers(0, 20000), st.integers(0, 200000))),
            'more': draw(st.sampled_from([[], [], [], ['-f', '16'], ['-f', '300'], ['-L', '20'], ['-B', '1000']])),
            'what': {7: ['--demo'], 8: ['--legend'], 9: ['--version']}.get(what, []), 'missing': what == 6}


@check('C26', _unwritable, quick=1500, thorough=30000, timing=True,
       rule='random input x options, demo, legend, version or a missing file, with the output going to a full device or to a reader that leaves after a random number of bytes; '
            'non-trivial: the output is cut off')
def c26(case, ctx):
    o, data, how = case['o'], case['data'], case['how']
    argv = [a for a in gen.argv(o) if not case['what'] or a != '-b'] + ['-' + 'D' * case['debug']] * bool(case['debug']) + case['what']
    more = case.get('more') or []
    if more and more[0] == '-f':
        more = ['-f', str(gen.fit(more[1], data, case['debug'] > 0))]
    if not case.get('endless'):
        argv += more
    if case['missing']:
        argv.append('/nonexistent/file')
    if case.get('endless'):
        return endless(case, ctx, argv)
    full = app.run(argv, data)
    res = app.run(argv, data, stdout_mode=how, take=case['take'])
    need(full.out == b'' or full.out.endswith(b'\n'), 'no output')
    cut = how == 'full' or case['take'] < len(full.out)
    need(not any(t in res.err for t in NO_TRACE + (b'Exception ignored',)), lambda: f'{how}: a traceback is printed: {res.err[-300:]!r}')
    need(res.signal in (None, 13), lambda: f'{how}: killed by signal {res.signal}')
    if how == 'full':
        need(res.code == 1 and b'No space left' in res.err and b'OSError' in res.err, lambda: f'full device: exit code {res.code}, stderr {res.errtext!r}')
    else:
        need(res.out == full.out[:case['take']], lambda: f'the part of the output which is read differs: {res.out[:200]!r}')
        if not cut:
            need(res.code == full.code and res.err == full.err, lambda: f'exit code {res.code}, stderr {res.errtext!r}, although everything is read')
        else:
            need(res.err == full.err, lambda: f'reader of the output left: exit code {res.code}, stderr {res.errtext!r}')
    ctx.nontrivial(cut)
    ctx.label(how, 'cut' if cut else 'complete', *case['what'], *(['missing file'] * case['missing']))


def endless(case, ctx, argv):
    """The input goes on for ever; the application ends all the same when the output ends."""
    how, take = case['how'], min(case['take'], 2000)
    line = (case['data'][:200] or b'.') + b'\n'
    if len(app.ok(argv, line * 6).out) <= len(app.ok(argv, line * 3).out):      # nothing is shown: there is nothing to fail
        return
    res = app.run(argv, line, stdin_mode='endless', stdout_mode=how, take=take)
    need(not any(t in res.err for t in NO_TRACE + (b'Exception ignored',)), lambda: f'{how}, endless input: a traceback is printed: {res.err[-300:]!r}')
    need(res.signal in (None, 13), lambda: f'{how}, endless input: killed by signal {res.signal}')
    if how == 'full':
        need(res.code == 1 and b'No space left' in res.err and b'OSError' in res.err, lambda: f'full device, endless input: exit code {res.code}, stderr {res.errtext!r}')
    else:
        need(not res.err and len(res.out) == take, lambda: f'endless input: {len(res.out)} of {take} bytes, stderr {res.errtext!r}')
    ctx.nontrivial()
    ctx.label(how, 'endless input')


# ------------------------------------------------------------------------------------------------ C27

@st.composite
def _interrupted(draw):
    debug = draw(st.sampled_from([0, 0, 0, 1, 2, 3, 4]))
    d = draw(st.one_of(gen.data(20), gen.data(20, extra=gen.lines()), gen.mixed_data(30, big=not debug)))
    return {'data': d, 'o': draw(gen.opts()), 'buffer': draw(st.one_of(st.just(1), st.integers(1, 40), st.integers(1, 10), st.integers(1, 5000))),
            'debug': debug, 'where': draw(st.sampled_from(['stdin', 'stdin', 'dash', 'fifo'])),
            'pieces': draw(st.lists(st.integers(1, 60), max_size=5)), 'beyond': draw(st.sampled_from([[], [], ['-L'], ['-B'], ['-B', '-L']]))}


@check('C27', _interrupted, quick=1500, thorough=30000, timing=True,
       rule='random input x options x buffer sizes; the application is interrupted (SIGINT) when it waits for more input; non-trivial: at least one row is complete')
def c27(case, ctx):
    o, data, debug = case['o'], case['data'], case['debug']
    size = gen.fit(case['buffer'], data, debug > 0)
    argv = gen.argv(o) + ['-' + 'D' * debug] * bool(debug) + ['-f', str(size)]
    for flag in case.get('beyond', ()):         # limits that are not reached
        argv += [flag, str(len(data) + 1)]
    rows_of = debug_rows if debug else picture
    full = rows_of(app.ok(argv, data))
    kw = {'stdin': data, 'pieces': case['pieces']}
    if case['where'] == 'dash':
        argv.append('-')
    elif case['where'] == 'fifo':
        path = os.path.join(app.scratch(), 'c27.fifo')
        if not os.path.exists(path):
            os.mkfifo(path)
        argv.append(path)
        kw = {'stdin': b'other data', 'fifo': {'path': path, 'data': data, 'pieces': case['pieces']}}
    res = app.run(argv, stdin_mode='interrupt', **kw)
    need(res.signal is None and res.code == 0, lambda: f'interrupted: exit code {res.code}, signal {res.signal}, stderr {res.errtext[-300:]!r}')
    need(not res.err, lambda: f'interrupted: stderr {res.errtext[-300:]!r}')
    shown = rows_of(res)
    least = _complete(data, size, o)
    need(least <= len(shown) <= len(full), lambda: f'{len(shown)} rows are shown before the interrupt, {least} are complete, {len(full)} in all')
    for i, (g, w) in enumerate(zip(shown, full)):
        view.same_cells(g, w, f'row {i + 1} before the interrupt')
    ctx.nontrivial(least > 0)
    ctx.label(case['where'], 'debug' if debug else 'regular', 'all rows' if len(shown) == len(full) else 'some rows')


# ------------------------------------------------------------------------------------------------ C20

LONG = {'-b': '--binary', '-t': '--text', '-d': '--decode', '-w': '--columns', '-m': '--marker', '-f': '--buffer', '-L': '--max-lines', '-B': '--max-bytes',
        **{'-' + f: f'--focus-{n}' for f, n in (('s', 'space'), ('c', 'control'), ('p', 'printable'), ('e', 'esc'), ('u', 'utf8'), ('i', 'binary'))},
        **{'-' + f: f'--ignore-{n}' for f, n in (('S', 'space'), ('C', 'control'), ('P', 'printable'), ('E', 'esc'), ('U', 'utf8'), ('I', 'binary'))}}


@st.composite
def _spellings(draw):
    o = draw(gen.opts())
    case = {'o': o, 'data': draw(st.one_of(gen.data(10), gen.data(10, extra=st.one_of(gen.sgr_seq(1), gen.utf8_char())))), 'limits': []}
    for f in ('-f', '-L', '-B'):
        if draw(st.integers(0, 5)) == 5:
            case['limits'].append([f, str(draw(st.integers(1, 30)))])
    canon = gen.argv(o)
    units, i = [], 0
    while i < len(canon):
        n = 2 if canon[i] in ('-w', '-m') else 1
        units.append(canon[i:i + n])
        i += n
    units += case['limits']
    if not o['binary'] and draw(st.booleans()):
        units.append(['-t'])
    case['foreign'] = []
    if draw(st.booleans()):      # options of the other mode
        pool = [['-m', '1'], ['-m', '2'], ['--no-separators'], ['--no-line-numbers']] if o['binary'] else [['-w', '7'], ['-w', '16'], ['-d'], ['--no-offsets'], ['--decimal-offsets']]
        case['foreign'] = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=2, unique_by=lambda u: u[0] if u[0] in ('-w', '-m') else 'offsets' if 'offsets' in u[0] else u[0]))
    out, bundle = [], None
    for u in draw(st.permutations(units + case['foreign'])):
        f = u[0]
        style = draw(st.integers(0, 4))
        if len(u) == 1:
            if f in LONG and style <= 1:
                out.append([LONG[f]])
                bundle = None
            elif f in LONG and style >= 3 and bundle is not None:
                bundle[-1] += f[1:]
            else:
                bundle = [f] if f in LONG else None
                out.append(bundle or [f])
        else:
            u = [f, draw(st.sampled_from(['', '', '', '0', '00', '+'])) + u[1]] if u[1].isdigit() else u
            if style == 4 and bundle is not None:
                bundle[-1] += f[1:] + u[1]
            else:
                out.append([[LONG[f], u[1]], [LONG[f] + '=' + u[1]], [f, u[1]], [f + u[1]], [f + '=' + u[1]]][draw(st.integers(0, 4))])
            bundle = None
    where = draw(st.sampled_from(['none', 'none', 'dash', 'file', 'file']))
    case['where'] = where
    case['pos'] = draw(st.integers(0, len(out)))
    case['name'] = draw(st.sampled_from([None, None, 'c20', 'c 20', '-c20', '-b', '--text', '-w', '--', '-f1'])) if where == 'file' else None
    case['dashes'] = where in ('dash', 'file') and draw(st.integers(0, 2)) == 2
    case['argv'] = out
    return case


@check('C20', _spellings, quick=2000, thorough=40000,
       rule='random input x options; each option in a random spelling (short, long, "=", glued, bundled), order and position relative to the file name (also after "--"), plus options of the other mode; '
            'non-trivial: at least three options')
def c20(case, ctx):
    o, data = case['o'], case['data']
    base = app.ok(gen.argv(o) + [x for l in case['limits'] for x in l], data)
    parts = [list(p) for p in case['argv']]
    stdin, path, kw = data, None, {}
    folder = os.path.join(app.scratch(), 'c20')
    if case['where'] == 'dash':
        path = '-'
    elif case['where'] == 'file':
        path = os.path.join(app.scratch(), 'c20.bin')
        if case.get('name'):        # relative to the working directory; with a dash at the beginning it needs "--" or "./"
            os.makedirs(folder, exist_ok=True)
            path = os.path.join(folder, case['name'])
        with open(path, 'wb') as f:
            f.write(data)
        stdin = b'unrelated'
        if case.get('name'):
            path = ('./' if case['name'].startswith('-') and not case.get('dashes') else '') + case['name']
            kw = {'cwd': folder}
    if case.get('dashes'):
        parts += [['--', path]]
    elif path:
        parts.insert(case['pos'], [path])
    argv = [x for p in parts for x in p]
    res = app.ok(argv, stdin, **kw)
    for name in os.listdir(folder) if kw else ():
        os.unlink(os.path.join(folder, name))
    if res.out != base.out:
        view.same_rows(picture(res), picture(base), f'{argv} against {base.argv}')
        raise Violation(f'{argv} differs from {base.argv} in escape codes')
    ctx.nontrivial(len(case['argv']) >= 3)
    ctx.label(case['where'], *(['--'] if case.get('dashes') else []), 'foreign options' if case['foreign'] else 'own options')


# ------------------------------------------------------------------------------------------------ C22

def _version(name, attr='__version__'):
    ns = {}
    with open(os.path.join(app.REPO, name)) as f:
        exec(f.read(), ns)
    return ns[attr]


@st.composite
def _special(draw):
    kind = draw(st.sampled_from(['demo', 'demo', 'demo', 'demo', 'legend', 'version', 'help', 'legend version', 'version demo', 'legend demo', 'help demo']))
    o = draw(gen.opts())
    explicit = draw(st.integers(0, 2))       # mode: default, -b, -t
    argv = gen.argv({**o, 'binary': False, 'columns': None, 'decode': draw(st.booleans()), 'marker': draw(st.integers(0, 2))})
    if draw(st.booleans()):
        argv += ['-w', str(draw(st.one_of(st.integers(1, 40), st.integers(-2, 2), st.integers(15, 17))))]
    for f in ('-f', '-L', '-B'):
        if draw(st.integers(0, 4)) == 4:
            argv += [f, str(draw(st.integers(1, 300)))]
    if kind == 'demo' or kind == 'version' or kind == 'version demo':
        argv += [[], ['-b'], ['-t']][explicit]
    return {'kind': kind, 'argv': argv, 'short': draw(st.booleans()), 'data': draw(gen.data(4)), 'file': draw(st.booleans()), 'term': draw(st.sampled_from([80, 20, 200, 120]))}


_cache = {}


def _once(flag):
    if flag not in _cache:
        _cache[flag] = app.ok([flag], b'').out
    return _cache[flag]


@check('C22', _special, quick=1500, thorough=30000,
       rule='demo, legend, version and help with random other options, input and terminal sizes; non-trivial: combined with at least two other options')
def c22(case, ctx):
    kinds = case['kind'].split()
    argv = list(case['argv'])
    flags = {'demo': ('-M', '--demo'), 'legend': ('-l', '--legend'), 'version': ('-v', '--version'), 'help': ('-h', '--help')}
    cmd = argv + [flags[k][0 if case['short'] else 1] for k in kinds]
    if case['file'] and 'demo' not in kinds:
        cmd.append('/nonexistent/file')
    res = app.ok(cmd, case['data'], columns=case['term'])
    ctx.nontrivial(len(argv) >= 2)
    ctx.label(case['kind'])
    if 'help' in kinds:
        need('usage' in res.text.lower() and '--binary' in res.text, lambda: f'no usage in the output of {cmd}')
        return
    if 'legend' in kinds:
        need(res.out == _once('--legend'), lambda: f'the legend depends on other options or input: {cmd}')
        rows = term.parse(res.text).rows
        need(not any(r.text.startswith('#') for r in rows), 'comment lines in the legend')
        need(len(rows) > 20 and 'SIGILS' in res.text, 'the legend is incomplete')
        return
    if 'version' in kinds:
        rows = [r.text.split() for r in view.finish(term.parse(res.text))]
        want = [['es7s/kolombos', _version('kolombos/version.py')], ['pytermor', _version('pytermor/_version.py')]]
        need(rows == want, lambda: f'version is {rows}, expected {want}')
        return
    demo = os.path.join(app.REPO, 'kolombos', 'demo.bin')
    same = argv + ([] if '-t' in argv or '-b' in argv else ['-b']) + ([] if '-d' in argv else ['-d']) + ([] if '-w' in argv else ['-w', '16']) + [demo]
    want = app.ok(same, case['data'], columns=case['term'])
    rows = picture(res)
    hint = [i for i, r in enumerate(rows) if '--legend' in r.text]
    need(hint and hint[-1] == len(rows) - 1, lambda: f'the demo does not end with a hint about --legend: {[r.text for r in rows][-3:]}')
    got = rows[:hint[-1]]
    need(got and not got[-1].text, 'no blank line before the hint')
    view.same_rows(got[:-1], picture(want), f'demo against {same}')


# ------------------------------------------------------------------------------------------------ C31

_DOCUMENTED = sorted([x for kv in LONG.items() for x in kv] + ['-M', '--demo', '-l', '--legend', '-v', '--version', '-h', '--help', '-D', '--debug', '--color-markers', '--no-separators', '--no-line-numbers',
                                                              '--decimal-offsets', '--no-offsets', '<file>'])
_GROUPS = ['usage', 'input', 'operating mode', 'character class options', 'generic options', 'text mode options', 'binary mode options', 'examples']


@st.composite
def _help(draw):
    o = draw(gen.opts())
    bad = draw(st.integers(0, 4)) == 4
    return {'argv': gen.argv({**o, 'columns': None}), 'columns': draw(st.one_of(st.integers(1, 140), st.integers(60, 130), st.integers(1, 600))), 'short': draw(st.booleans()), 'tty': draw(st.booleans()),
            'bad': draw(_bad_usage().filter(lambda b: b[0] != '!last')) if bad else [], 'pos': draw(st.integers(0, 9)), 'data': draw(gen.data(2))}


def _letters(s):
    return ''.join(s.split())


_full_help = None


@check('C31', _help, quick=1500, thorough=30000,
       rule='help and usage errors on terminals and pipes of random width, with random other options and input; non-trivial: less than 120 columns or on a terminal')
def c31(case, ctx):
    global _full_help
    if _full_help is None:
        _full_help = term.strip_sgr(app.ok(['--help'], b'', columns=1000).text)
    full = _full_help
    argv, columns = list(case['argv']), case['columns']
    if not case['bad']:
        at = [i for i in range(len(argv) + 1) if not i or argv[i - 1] not in ('-m', '-w')]
        argv.insert(at[case['pos'] % len(at)], '-h' if case['short'] else '--help')
    kw = {'columns': columns}
    if case['tty']:
        kw = {'columns': None, 'stdout_mode': 'tty', 'size': [columns, 24], 'take': 1 << 30}
    what = f'{argv} in {columns} columns{" of a terminal" if case["tty"] else ""}'
    if case['bad']:
        res = app.run(case['bad'], case['data'], **kw)
        need(res.code == 2 and not res.out, lambda: f'{res.argv}: exit code {res.code}, {res.out[:100]!r} is printed')
        lines = term.strip_sgr(res.errtext).rstrip('\n').split('\n')
        need(any(l.startswith('kolombos: error: ') for l in lines), lambda: f'{res.argv}: {lines}')
        usage = '\n'.join(lines[:next(i for i, l in enumerate(lines) if l.startswith('kolombos: error: '))])
        want = full[:full.index('kolombos --help')] + 'kolombos --help'
        need(_letters(usage) == _letters(want), lambda: f'{res.argv} in {columns} columns: usage is {usage!r}')
        ctx.label('usage error')
        ctx.nontrivial(columns < 120)
        return
    res = app.ok(argv, case['data'], **kw)
    # no sequences but SGR, none broken, and none left open
    screen = term.parse(res.text)
    rows = screen.rows
    need(screen.final_style == term.DEFAULT, lambda: f'{what}: ends with {view.style_str(screen.final_style)}')
    need(not case['tty'] or any(s != term.DEFAULT for r in rows for _, s in r), lambda: f'{what}: nothing is formatted')
    text = term.strip_sgr(res.text)
    need('\x1b' not in text, lambda: f'{what}: a broken sequence in {text[max(0, text.index(chr(27)) - 40):][:80]!r}')
    got, want = _letters(text), _letters(full)
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation(f'{what}: the help has {got[max(0, i - 30):i + 30]!r} where it has {want[max(0, i - 30):i + 30]!r} in wide terminals')
    words = set(text.replace(',', ' ').split())
    for x in _DOCUMENTED:
        need(x in words, lambda: f'{what}: {x} is missing')
    lines = [l.strip() for l in text.split('\n')]
    for g in _GROUPS:
        need(g.upper() in lines, lambda: f'{what}: no section {g!r}')
    ctx.nontrivial(columns < 120 or case['tty'])
    ctx.label('terminal' if case['tty'] else 'pipe', 'help')


# ------------------------------------------------------------------------------------------------ C25

def sigils(text):
    """The characters of the sigil table of a legend with their styles."""
    rows = term.parse(text).rows
    start = next((i for i, r in enumerate(rows) if 'SIGILS' in r.text), 0)
    # the first column names the sigil in its own style; examples follow
    return {(c, s) for r in rows[start:] for c, s in r if not (s.bold and s.bg is not None)}


_legend_cells = None


def legend_cells():
    global _legend_cells
    if _legend_cells is None:
        _legend_cells = sigils(_once('--legend').decode())
    return _legend_cells


def look_up(case, ctx, cells):
    o, data = case['o'], case['data']
    plain = {(c, s._replace(inverse=False)) for c, s in cells}
    res = app.ok(gen.argv(o), data)
    if o['binary']:
        got = [c for r in view.binary(res, offsets=o['offsets'] != 'none', cols=o['columns']).rows for c in r.cells]
    else:
        got = [c for r in view.text(res, o['line_numbers']) for c in r.cells]
    decoded = {c for t in M.tokenize(data) if t.cls == 'utf8' for c in t.raw.decode('utf-8', 'replace')}
    esc = set('θǝϽꟻꟼƎꙄ')
    seen = set()
    for c, s in got:
        if c.isascii() or c in decoded:
            continue
        seen.add(c)
        ok = (c, s._replace(inverse=False)) in plain if c in esc else (c, s) in cells
        if not ok and c == '･':      # separator of marker details
            ok = any(c == x for x, _ in cells)
        need(ok, lambda: f'{c!r} is shown with {view.style_str(s)}; the legend has {[view.style_str(y) for x, y in cells if x == c]}')
    ctx.nontrivial(len(seen) >= 3)
    ctx.label('binary' if o['binary'] else 'text')


@check('C25', lambda: st.fixed_dictionaries({'data': st.one_of(gen.data(8), gen.data(8, extra=gen.any_escape()), st.binary(min_size=1, max_size=12)),
                                             'o': gen.opts().map(lambda o: {**o, 'ignore': [], 'color_markers': False})}),
       quick=1500, thorough=30000,
       rule='random input x options; every sigil of the picture is looked up in the legend with its colors (inverse video only told apart for single-byte classes); non-trivial: at least three different sigils')
def c25(case, ctx):
    look_up(case, ctx, legend_cells())


# ------------------------------------------------------------------------------------------------ C28

_VARS = {'LANG': [None, 'C', 'C.UTF-8', 'en_US.UTF-8', 'ru_RU.KOI8-R'], 'LC_ALL': [None, None, 'C', 'POSIX', 'C.UTF-8'], 'TERM': [None, 'dumb', 'linux', 'xterm-256color', 'tmux', '', 'vt100', 'vt220', 'xterm', 'ansi', 'cygwin', 'screen', 'rxvt', 'unknown', 'xterm-mono', 'emacs', 'wy50', 'sun', 'cons25'], 'NO_COLOR': [None, '1', ''],
         'FORCE_COLOR': [None, '0', '1'], 'COLORTERM': [None, 'truecolor', '24bit', 'no'], 'TERM_PROGRAM': [None, 'vscode', 'Apple_Terminal'], 'CI': [None, 'true'], 'TMUX': [None, '/tmp/tmux-0/default,1,0'], 'SHELL': [None, '/bin/false'], 'EDITOR': [None, 'vi'], 'CLICOLOR': [None, '0'], 'HOME': [None, '/nonexistent'], 'TZ': [None, 'Asia/Tokyo'], 'LINES': [None, '1', '3', '1000', 'x'], 'PAGER': [None, 'cat'],
         'PYTHONHASHSEED': ['0', '1', '2', '3', 'random'], 'PYTHONUTF8': [None, '1'], 'PYTHONUNBUFFERED': [None, '1'], 'KOLOMBOS': [None, '-b'], 'DEBUG': [None, '1'], 'USER': [None, 'nobody']}


@st.composite
def _started(draw):
    kind = draw(st.sampled_from(['data'] * 8 + ['demo', 'legend', 'version', 'help', 'failure', 'failure']))
    how = draw(st.sampled_from(['module', 'module', 'script', 'other name', '-O', '-OO', '-S', '-u', '-s', 'compiled anew']))
    case = {'kind': kind, 'how': how, 'o': draw(gen.opts()), 'data': draw(gen.data(12)), 'env': {}, 'fail': draw(_failures()) if kind == 'failure' else None, 'file': draw(st.booleans()), 'tty': draw(st.sampled_from([0, 1, 24, 24, 50])),
            'extra': draw(st.sampled_from([[], [], ['-f', '7'], ['-B', '20'], ['-L', '2'], ['-D'], ['-DDD']]))}
    for name in draw(st.lists(st.sampled_from(sorted(_VARS)), max_size=6, unique=True)):
        case['env'][name] = draw(st.sampled_from(_VARS[name]))
    case['asked'] = draw(st.sampled_from([None, None, '1', '0', 'true', '2', 'always', 'ascii', '-b', '/nonexistent', '']))
    return case


def asked_for(argv, stdin, columns, cwd):
    """Names of the variables of the environment which the application asks for in such a run, other than well-known ones."""
    path = os.path.join(app.scratch(), 'asked')
    if os.path.exists(path):
        os.unlink(path)
    really('module', argv, stdin, columns, {}, cwd, [sys.executable, os.path.join(os.path.dirname(app.__file__), 'spy.py'), path])
    if not os.path.exists(path):
        return []
    with open(path) as f:
        names = f.read().split('\n')
    return [n for n in names if re.fullmatch('[A-Za-z_][A-Za-z0-9_]*', n) and n not in ('COLUMNS', 'LINES', 'PATH') and not n.startswith(('PYTHON', 'LC_', 'LANG', 'LD_'))]


def really(how, argv, stdin, columns, env, cwd, start=None):
    """A run of the application in an interpreter of its own."""
    e = {k: v for k, v in app.base_env().items() if k not in ('PYTHONUTF8', 'PYTHONIOENCODING', 'PYTHONHASHSEED', 'PYTHONWARNINGS')}
    e.update({'COLUMNS': str(columns), **{k: v for k, v in env.items() if v is not None}})
    for k in [k for k, v in env.items() if v is None]:
        e.pop(k, None)
    start = start or [sys.executable, '-m', 'kolombos']
    if how in ('script', 'other name'):
        path = os.path.join(app.scratch(), 'kolombos' if how == 'script' else ['klmb', 'hex viewer.py', 'k', 'Kolombos-1.3'][len(argv) % 4])
        with open(path, 'w') as f:
            f.write('import sys\nfrom kolombos.__main__ import main\nif __name__ == "__main__":\n    sys.exit(main())\n')
        start = [sys.executable, path]
    elif how.startswith('-'):
        start.insert(1, how)
    elif how == 'compiled anew':
        e['PYTHONPYCACHEPREFIX'] = os.path.join(app.scratch(), 'no cache')
    try:
        p = subprocess.run(start + argv, input=stdin, capture_output=True, env=e, cwd=cwd, timeout=120)
    except subprocess.TimeoutExpired:
        raise app.Hang(f'no termination: argv={argv!r} stdin={stdin[:200]!r}')
    return p


@check('C28', _started, quick=480, thorough=15000,
       rule='random input x options, special actions and failures, run in an interpreter of its own under a random environment (locale, kind of terminal, colors, hash seed, optimization, working directory), '
            'compared with the regular run; non-trivial: two or more variables are changed and at least 3 tokens are shown, or another action is run')
def c28(case, ctx):
    o, data, kind = case['o'], case['data'], case['kind']
    folder = os.path.join(app.scratch(), 'c28')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, 'input')
    argv, stdin = gen.argv(o) + [str(gen.fit(int(a), data)) if a == '7' else a for a in case['extra']], data
    if kind == 'failure':
        f = case['fail']
        argv = gen.argv(f['o']) if f['kind'] != 'usage' else [a for a in f['bad'] if a != '!last']
        argv += ['-' + 'D' * f['debug']] if f['debug'] else []
        argv += [os.path.join(folder, 'missing')] if f['kind'] != 'usage' else []
    elif kind != 'data':
        argv, stdin = ['--' + kind], b''
    elif case['file']:
        with open(path, 'wb') as f:
            f.write(data)
        argv, stdin = argv + [path], b''
    columns = o.get('columns') or 80
    want = app.run(argv, stdin, columns=columns)
    if kind not in ('help', 'failure') and case.get('tty'):        # help is formatted on a terminal only: see C31
        seen = app.run(argv, stdin, columns=None, stdout_mode='tty', size=[columns, case['tty']], take=1 << 30)
        need((seen.code, seen.out, seen.err) == (want.code, want.out, want.err), lambda: f'on a terminal the output is {seen.out[:300]!r} (exit code {seen.code}, {seen.err!r}) instead of {want.out[:300]!r}')
    env = dict(case['env'])
    if case.get('asked') is not None:
        found = asked_for(argv, stdin, columns, folder)
        env.update({name: case['asked'] for name in found if name not in env})
        ctx.label('variables asked for were looked up')
    got = really(case['how'], argv, stdin, columns, env, folder)
    where = lambda: f'{case["how"]} with {env}: '
    need(got.returncode == want.code, lambda: f'{where()}exit code is {got.returncode} instead of {want.code}; {got.stderr[-300:]!r}')
    # at most the location of the code is different
    need(got.stdout == want.out, lambda: f'{where()}the output is {got.stdout[:300]!r} instead of {want.out[:300]!r}')
    need(case['how'] in ('script', 'other name') and kind == 'failure' or got.stderr == want.err, lambda: f'{where()}error output is {got.stderr[:300]!r} instead of {want.err[:300]!r}')
    ctx.nontrivial(len(case['env']) >= 2 and (kind != 'data' or len(M.tokenize(data)) >= 3))
    ctx.label(kind, case['how'])
