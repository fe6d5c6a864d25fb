"""C12, C13, C14: reading the input."""
import os

from hypothesis import strategies as st

from vlib import app, gen, view, model as M, term
from vlib.core import check
from vlib.view import need


def picture(res):
    """Everything visible: rows of styled cells."""
    return view.finish(term.parse(res.text))


def same_picture(a, b, what):
    view.same_rows(a, b, what)


# ------------------------------------------------------------------------------------------------ C12

@st.composite
def _chunked(draw):
    d = draw(st.one_of(gen.data(12), gen.data(12), gen.data(30), gen.data(12, extra=st.one_of(gen.utf8_char(), gen.any_escape(), gen.almost_utf8()))))
    o = draw(gen.opts())
    if draw(st.integers(0, 29)) == 29:
        d = draw(gen.big_data((4096, 4096, 8192)))
        if o['binary']:
            o['columns'] = max(o['columns'], 16)
        return {'data': d, 'o': o, 'sizes': [draw(st.sampled_from([4095, 4097, 1000, 5000, 20000]))], 'huge': True}
    sizes = draw(st.lists(st.one_of(st.integers(1, 9), st.integers(1, 60)), min_size=1, max_size=2, unique=True))
    if draw(st.integers(0, 29)) == 17:
        d, sizes = draw(gen.middle_data()), sorted({sizes[0], draw(st.integers(1, 1500))})
    return {'data': d, 'o': o, 'sizes': sizes, 'huge': False}


@check('C12', _chunked, quick=2000, thorough=60000,
       rule='random input x options x read buffer sizes from 1 byte; also inputs with constructs around the default buffer boundary; '
            'non-trivial: some multi-byte character or escape sequence is cut by a buffer boundary')
def c12(case, ctx):
    o, data = case['o'], case['data']
    argv = gen.argv(o)
    base_size = 100000 if case['huge'] else None          # the default buffer is compared with one that holds everything
    base = picture(app.ok(argv + (['-f', str(base_size)] if base_size else []), data))
    for size in case['sizes'] + ([None] if case['huge'] else []):
        got = picture(app.ok(argv + (['--buffer', str(gen.fit(size, data))] if size else []), data))
        same_picture(got, base, f'read buffer of {size or "default size"} instead of {base_size or "default size"}')
    sizes = case['sizes'] + ([4096] if case['huge'] else [])
    ctx.nontrivial(any(len(t.raw) > 1 and t.offset // s != (t.offset + len(t.raw) - 1) // s for t in M.tokenize(data) for s in sizes))
    ctx.label('binary' if o['binary'] else 'text', 'huge' if case['huge'] else 'small')


# ------------------------------------------------------------------------------------------------ C13

ODD_NAMES = ['$HOME', 'a${PATH}', '%HOME%', '~', '~root', '%41', '%s', '%d%n', '{}', '{0}', '*', '?', '[a]', '{a,b}', 'a b', ' a', 'a ', '\n', 'a\nb', '\t', '\\', '\\x41', "'", '"', '`id`', '$(id)',
             '#', '&', '|', ';', '!', '@args', '+x', '=', ',', ':', 'a:b', 'http:', 'file:', 'a.gz', 'a.txt', 'a.bin', '.hidden', '...', 'a.', '\u00e9', 'e\u0301', '\u202e', '0', '1', '80', 'True',
             'None', 'con', 'nul', 'demo.bin', 'legend.txt', 'kolombos', 'x' * 200, '\x1b[31m', '\x07', '\x85', '\udcff', 'a\udc80b', '--', '--demo', '-b', '-x', '-1', 'stdin']
_names = st.one_of(st.just('input.bin'), st.sampled_from(ODD_NAMES), st.sampled_from(ODD_NAMES), st.text(st.characters(codec='utf-8', exclude_characters='/\x00', exclude_categories=['Cs']), min_size=1, max_size=12)
                   .filter(lambda s: s not in ('.', '..', '-') and not s.startswith('-') and len(s.encode()) < 200))


@st.composite
def _sources(draw):
    d = draw(gen.mixed_data(12, around=(4096, 8192)))
    return {'data': d, 'o': draw(gen.opts()), 'name': draw(_names), 'pieces': draw(st.lists(st.integers(1, 40), max_size=6)),
            'extra': draw(st.sampled_from([[], [], ['-f', '7'], ['-f', '1'], ['-f', '3'], ['-B', '20'], ['-L', '2'], ['-D'], ['-DDD']])),
            'names': draw(st.lists(st.sampled_from(ODD_NAMES), max_size=5, unique=True)),
            'how': draw(st.sampled_from(['file', 'file', 'relative', 'dash', 'pipe', 'pipe', 'nonblock', 'fifo', 'relative', 'devstdin', 'devfd', 'dashdash', 'symlink', 'dotted', 'long', 'nostdin']))}


@check('C13', _sources, quick=1500, thorough=30000,
       rule='random input x options, given as a file, standard input, "-", a pipe fed in pieces (also in non-blocking mode), a named pipe, a symbolic link, a relative path or /dev/stdin, with odd file names; non-trivial: at least 3 tokens')
def c13(case, ctx):
    o, data, how = case['o'], case['data'], case['how']
    argv = gen.argv(o) + [str(gen.fit(a, data)) if '-f' in case['extra'] and a != '-f' else a for a in case['extra']]
    base = app.ok(argv, data)
    folder = os.path.join(app.scratch(), 'c13')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, case['name'])
    debug = any(a.startswith('-D') for a in case['extra'])
    try:
        if how in ('file', 'relative', 'dashdash', 'symlink', 'dotted', 'long', 'nostdin'):
            with open(path, 'wb') as f:
                f.write(data)
            os.utime(path, (1000000, 1000000))
            before = os.stat(path)
            if how == 'relative':
                named = lambda name: app.ok(argv + ['--'] * name.startswith('-') + [name], b'NOT THIS', cwd=folder)
                res = named(case['name'])
                for name in case.get('names') or []:        # the same file under other names
                    if name != case['name']:
                        os.rename(path, os.path.join(folder, name))
                        try:
                            got = named(name)
                        finally:
                            os.rename(os.path.join(folder, name), path)
                        need(debug or (got.out, got.err) == (res.out, res.err), lambda: f'input named {name!r} is shown as {got.out[:300]!r} instead of {res.out[:300]!r}')
            elif how == 'dotted':
                res = app.ok(argv + ['./../c13/./' + case['name']], b'NOT THIS', cwd=folder)
            elif how == 'long':
                res = app.ok(argv + [folder + '/../c13' * min(450, 20 + 15 * len(data)) + '/' + case['name']], b'NOT THIS')
            elif how == 'symlink':
                link = os.path.join(app.scratch(), 'link to it')
                if os.path.lexists(link):
                    os.unlink(link)
                os.symlink(path, link)
                res = app.ok(argv + [link], b'NOT THIS')
            elif how == 'dashdash':
                res = app.ok(argv + ['--', path], b'NOT THIS')
            elif how == 'nostdin':          # there is no standard input at all
                res = app.ok(argv + [path], stdin_mode='nothing')
            else:
                res = app.ok([path] + argv, b'NOT THIS')
            after = os.stat(path)
            with open(path, 'rb') as f:
                need(f.read() == data and (before.st_mtime_ns, before.st_size, before.st_mode) == (after.st_mtime_ns, after.st_size, after.st_mode), 'the input file was changed')
            need(os.listdir(folder) == [case['name']], lambda: f'files appeared next to the input: {os.listdir(folder)}')
        elif how == 'dash':
            res = app.ok(argv + ['-'], data)
        elif how == 'pipe':
            res = app.ok(argv, data, stdin_mode='pipe', pieces=case['pieces'])
        elif how == 'nonblock':         # reading returns nothing when there is nothing yet
            res = app.ok(argv, data, stdin_mode='pipe', pieces=case['pieces'] or [1], nonblock=True)
        elif how == 'fifo':
            os.mkfifo(path)
            res = app.ok(argv + [path], b'NOT THIS', fifo={'path': path, 'data': data, 'pieces': case['pieces']})
        else:
            res = app.ok(argv + ['/dev/fd/0' if how == 'devfd' else '/dev/stdin'], data)
    finally:
        if os.path.lexists(path):
            os.unlink(path)
    if debug:
        a, b = debug_rows(base), debug_rows(res)
    else:
        a, b = picture(base), picture(res)
    same_picture(b, a, f'input given as {how}')
    ctx.nontrivial(len(M.tokenize(data)) >= 3)
    ctx.label(how, 'binary' if o['binary'] else 'text')


def debug_rows(res):
    """The regular rows of a debug mode run (those with a green or cyan prefix)."""
    out = []
    for row in term.parse(res.text).rows:
        i = next((i for i, (c, _) in enumerate(row) if c == '│'), None)
        if i and row[i - 1][1] in (view.GREEN, view.CYAN) and row[i - 1][0] != '─':
            out.append(list(row))
    return out


# ------------------------------------------------------------------------------------------------ C14

@st.composite
def _limited(draw):
    o = draw(gen.opts())
    d = draw(st.one_of(gen.mixed_data(12), st.lists(st.one_of(gen.data(3), st.just(b'\n'), st.just(b'x\n')), max_size=10).map(b'\n'.join)))
    nl = d.count(b'\n')
    return {'data': d, 'o': o,
            'bytes': draw(st.one_of(st.just(0), st.integers(0, len(d) + 3), st.sampled_from([1, len(d), 4095, 4096, 4097]))),
            'lines': draw(st.one_of(st.just(0), st.integers(0, nl + 2))),
            'buffer': draw(st.one_of(st.none(), st.none(), st.integers(1, 30))),
            'endless': draw(st.integers(0, 19)) == 7}


@check('C14', _limited, quick=2000, thorough=50000,
       rule='random input (or one without an end) x byte limit and/or line limit x read buffer size; non-trivial: a limit cuts something off')
def c14(case, ctx):
    o, data = case['o'], case['data']
    argv = gen.argv(o) + (['-f', str(gen.fit(case['buffer'], data))] if case['buffer'] else [])
    limited = argv + (['-B', str(case['bytes'])] if case['bytes'] else []) + (['-L', str(case['lines'])] if case['lines'] else [])
    endless = case.get('endless') and (case['bytes'] or case['lines'])
    if endless:             # the input goes on for ever, the application does not
        unit = data[:300] + b'\n'
        data = unit * (case['bytes'] // len(unit) + case['lines'] + 2)
    cut = len(data)
    if case['lines']:
        pos = -1
        for _ in range(case['lines']):
            pos = data.find(b'\n', pos + 1)
            if pos < 0:
                break
        else:
            cut = pos
    if case['bytes']:
        cut = min(cut, case['bytes'])
    got = picture(app.ok(limited, unit, stdin_mode='endless') if endless else app.ok(limited, data))
    want = picture(app.ok(argv, data[:cut]))
    same_picture(got, want, f'limits -B {case["bytes"]} -L {case["lines"]}, {cut} of {len(data)} bytes')
    ctx.nontrivial(0 < cut < len(data))
    ctx.label('binary' if o['binary'] else 'text', *(['-B'] if case['bytes'] else []), *(['-L'] if case['lines'] else []), *(['endless'] if endless else []))
