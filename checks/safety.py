"""C15, C16, C17, C19: what reaches the terminal, totality, debug mode."""
import os
import unicodedata

from hypothesis import strategies as st

from vlib import app, gen, view, model as M, term
from vlib.core import check, Violation
from vlib.term import sgr, DEFAULT
from vlib.view import need
from checks.stream import debug_rows


# ------------------------------------------------------------------------------------------------ C15

_hostile = st.sampled_from([
    b'\x1b]0;title\x07', b'\x1b[2J', b'\x1b[H', b'\x1bc', b'\x1b[?1049h', b'\x1b[31m', b'\x9b31m', b'\xc2\x9b31m', b'\x07', b'\x08\x08', b'\r', b'\x0e', b'\x0f', b'\x7f', b'\x1bP1$r0m\x1b\\',
    b'\x1b[6n', b'\xc2\x85', b'\xc2\x90', b'\xc2\x9d', b'\x1b\x1b[31m', b'\x1b[\x1b[31m', b'\x1b[38;5;1', b'\x1b[8m', b'\x1b[5m', b'\x1b[7;8;5;1m', b'\x00', b'\x0b', b'\x0c', b'\x1b(0', b'\x1b#8'])


_bad_names = st.one_of(st.none(), st.none(), st.none(), st.lists(st.one_of(_hostile, st.sampled_from([b'a', b'\xff', b'\n', b'\t', b'\x01', b'%', b'{}', b'\xed\xa0\x80'])), min_size=1, max_size=3).map(
    lambda x: b'n' + b''.join(x).replace(b'/', b'').replace(b'\x00', b'')))


def _attacks():
    return st.one_of(gen.data(10), gen.data(10, extra=_hostile), gen.data(10, extra=st.sampled_from([b'\xc2' + bytes([c]) for c in range(0x80, 0xa0)])), gen.mixed_data())


FG = {None} | {sgr(c).fg for c in (30, 31, 32, 33, 35, 36, 90, 91, 92, 93, 94, 96)} | {('256', c) for c in (102, 210, 255)}
BG = {None, sgr(46).bg, sgr(47).bg, ('256', 16)}


@check('C15', lambda: st.fixed_dictionaries({'data': _attacks(), 'o': gen.opts(), 'debug': st.sampled_from([0, 0, 0, 1, 2, 3, 4]), 'buffer': st.one_of(st.none(), st.none(), st.integers(1, 20)), 'name': _bad_names}),
       quick=2400, thorough=80000,
       rule='input (from a file of such a name, or not) rich in control characters, escape sequences and UTF-8 encoded C1 controls x options x debug levels; non-trivial: at least one control character or escape sequence in the input')
def c15(case, ctx):
    o, data = case['o'], case['data']
    argv = gen.argv(o) + ['-' + 'D' * case['debug']] * bool(case['debug']) + (['-f', str(gen.fit(case['buffer'], data, case['debug'] > 0))] if case['buffer'] else [])
    if case.get('name'):
        name = os.path.join(os.fsencode(app.scratch()), case['name'])
        with open(name, 'wb') as f:
            f.write(data)
        try:
            out = app.ok(argv + [case['name']], b'NOT THIS', cwd=app.scratch()).out
        finally:
            os.remove(name)
        ctx.label('odd file name')
    else:
        out = app.ok(argv, data).out
    try:
        text = out.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Violation(f'output is not valid UTF-8: {e}')
    scr = term.parse(text)
    need(not scr.unknown, lambda: f'unexpected SGR codes in the output: {scr.unknown}')
    for row in scr.rows:
        prev = None
        for c, style in row:
            if unicodedata.category(c) == 'Cc':
                need(c == '\t' and not o['binary'] and prev == '⇥', lambda: f'control character {c!r} reaches the terminal: {row.text!r}')
            prev = c
            if not case['debug'] and not o['color_markers']:
                need(style.fg in FG and style.bg in BG and not (style.bold or style.italic or style.blink or style.hidden or style.crossed or style.overlined),
                     lambda: f'the input styles the output: {c!r} is shown with {view.style_str(style)}')
    ctx.nontrivial(any(t.cls in ('control', 'esc') for t in M.tokenize(data)))
    ctx.label('binary' if o['binary'] else 'text', f'debug {case["debug"]}', 'colored' if o['color_markers'] else 'plain')


# ------------------------------------------------------------------------------------------------ C16

def _roles(o, res):
    """{role: set of styles} of everything that is not input, and the list of rows."""
    scr = term.parse(res.text)
    rows = view.finish(scr)
    roles = {}

    def put(role, cells):
        roles.setdefault(role, set()).update(s for _, s in cells)
    if o['binary']:
        v = view.binary(res, offsets=o['offsets'] != 'none', cols=o['columns'])
        for r in v.rows:
            if r.prefix:
                p = ''.join(c for c, _ in r.prefix)
                x = p.find('0x')
                if x >= 0:
                    put('0x', r.prefix[x:x + 2])
                    put('offset', r.prefix[:x] + r.prefix[x + 2:-1])
                else:
                    put('offset', r.prefix[:-1])
                put('separator', r.prefix[-1:])
                put('separator', [r.sep])
            put('padding', r.gap)
        if v.total is not None:
            x = v.total.text.find('0x')
            put('total', [c for i, c in enumerate(v.total[:-1]) if x < 0 or not x <= i < x + 2])
            put('separator', v.total[-1:])
    elif o['line_numbers']:
        for r in view.text(res):
            put('line number', r.prefix[:-1])
            put('separator', r.prefix[-1:])
    return roles, rows, scr


@check('C16', lambda: st.fixed_dictionaries({'data': st.one_of(gen.data(14), gen.data(14, extra=gen.sgr_seq(1)), gen.mixed_data()), 'o': gen.opts()}), quick=2000, thorough=60000,
       rule='random input rich in SGR sequences x options; the style of everything between the input\'s characters; non-trivial: at least two rows and an SGR sequence')
def c16(case, ctx):
    o, data = case['o'], case['data']
    ref, _, _ = _roles(o, app.ok(gen.argv({**o, 'focus': [], 'ignore': [], 'color_markers': False}), b'abc\nabc'))
    res = app.ok(gen.argv(o), data)
    roles, rows, scr = _roles(o, res)
    for role, styles in roles.items():
        need(role not in ref or styles <= ref[role], lambda: f'{role} is shown with {[view.style_str(s) for s in styles]} instead of {[view.style_str(s) for s in ref[role]]}')
    for s in roles.get('padding', ()):
        need(s == DEFAULT, lambda: f'padding is shown with {view.style_str(s)}')
    ignored_nl = not o['binary'] and 'space' in o['ignore']
    for i, r in enumerate(rows):
        ok = r.end_style == DEFAULT or (ignored_nl and r and r[-1][0] == M.IGNORED and r.end_style == M.IGNORED_STYLE)
        need(ok, lambda: f'row {i + 1} ends with an open style {view.style_str(r.end_style)}: {r.text!r}')
    need(scr.final_style == DEFAULT, lambda: f'output ends with an open style {view.style_str(scr.final_style)}')
    ctx.nontrivial(len(rows) >= 2 and any(t.kind == M.SGR for t in M.tokenize(data)))
    ctx.label('binary' if o['binary'] else 'text', 'colored' if o['color_markers'] else 'plain')


# ------------------------------------------------------------------------------------------------ C17

@st.composite
def _anything(draw):
    d = draw(st.one_of(gen.data(12), gen.data(40), st.binary(max_size=200), gen.mixed_data(),
                       st.tuples(gen.piece(), st.integers(1, 400)).map(lambda t: (t[0] * t[1])[:3000])))
    if draw(st.integers(0, 24)) == 7:
        d = (draw(st.sampled_from([b'\n', b'\n', b'a\n', b'\r\n', b' \n', b'\x1b', b'\x1b[', b'\x1b[0', b'\xd0', b'\xf0\x9f', b'a ', b'\xff\x00', b'\x1b[31m', b'\x01\x02']) | gen.piece()) * 5000)[:draw(st.sampled_from([4096, 5000]))]
    big = draw(st.integers(0, 119)) == 7
    many = draw(st.integers(0, 39)) == 7
    o = draw(gen.opts())
    if big:       # time in proportion to the size
        d = draw(gen.long_data(40000))
    argv = gen.argv(o)
    if big:
        return {'argv': argv + draw(st.sampled_from([[], [], ['-f', '100000'], ['-f', '100000', *(['-w', '1'] if o['binary'] else [])], ['-f', '1'], ['-f', '2']])), 'data': d, 'term': 80}
    if many:      # many reads
        d = draw(gen.middle_data((1100, 2100, 3000)))
        d = b'\n'.join(d[i:i + 700] for i in range(0, len(d), 700))
        return {'argv': argv + ['-f', str(gen.fit(draw(st.integers(1, 3)), d))], 'data': d, 'term': 80, 'mode': draw(st.sampled_from(['file', 'pipe', 'pipe']))}
    num = lambda *xs: st.one_of(st.sampled_from(xs), st.integers(1, 5000))
    if draw(st.booleans()):
        level = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5]))
        argv += ['-D'] * level
        d = d[:[9999, 2500, 1000, 1000, 500, 500][level]]       # the whole queue is printed again and again
    for flag, values in (('-f', num(1, 2, 3, 16)), ('-B', num(0, 1, 2)), ('-L', num(0, 1, 2)), ('-w', st.integers(-3, 200)), ('-m', st.integers(-3, 9))):
        if draw(st.integers(0, 4)) == 0:
            v = draw(values)
            argv += [flag, str(gen.fit(v, d, True) if flag == '-f' else v)]
    if o['binary'] is False and draw(st.integers(0, 5)) == 0:
        argv += ['-d', '--no-offsets']
    if o['binary'] and draw(st.integers(0, 5)) == 0:
        argv += ['-m2', '--no-separators', '--no-line-numbers']
    return {'data': d, 'argv': argv, 'mode': draw(st.sampled_from(['file', 'file', 'pipe'])), 'term': draw(st.sampled_from([80, 80, 0, 1, 2, 9, 20, 33, 200, 1000, -5, 'abc', '', None]))}


@check('C17', _anything, quick=2400, thorough=100000,
       rule='arbitrary bytes x any combination of options (limits, buffer, debug levels, widths, terminal sizes); must end with exit code 0, a silent stderr and within 60 s of CPU time '
            '(typical: 0.02 s); non-trivial: at least three kinds of characters and three options')
def c17(case, ctx):
    res = app.ok(case['argv'], case['data'], columns=case['term'], stdin_mode=case.get('mode', 'file'))
    need(res.out.endswith(b'\n'), 'output is not finished')
    ctx.nontrivial(len({t.kind for t in M.tokenize(case['data'])}) >= 3 and len(case['argv']) >= 3)
    ctx.label('binary' if '-b' in case['argv'] else 'text', 'debug' if '-D' in case['argv'] else 'regular', 'big' if len(case['data']) > 10000 else 'long' if len(case['data']) > 1000 else 'short')


# ------------------------------------------------------------------------------------------------ C19

@check('C19', lambda: st.fixed_dictionaries({'data': st.one_of(gen.data(12), gen.data(30)), 'o': gen.opts().map(lambda o: {**o, 'offsets': 'dec' if o.get('offsets') == 'dec' else 'hex', 'line_numbers': True}),
                                             'level': st.integers(1, 4), 'buffer': st.one_of(st.none(), st.none(), st.integers(1, 30)),
                                             'limits': st.lists(st.one_of(st.tuples(st.just('-L'), st.integers(1, 5)), st.tuples(st.just('-B'), st.integers(1, 150))), max_size=2),
                                             'demo': st.integers(0, 12).map(lambda k: k == 7)}),
       quick=1200, thorough=30000,
       rule='random input (or the demo) x options x byte and line limits x debug level; the regular rows among the debug output against a run without debug mode; non-trivial: at least two rows')
def c19(case, ctx):
    o, data = case['o'], case['data']
    argv = gen.argv(o) + (['-f', str(gen.fit(case['buffer'], data, True))] if case['buffer'] else [])
    for flag, limit in case.get('limits', ()):
        argv += [flag, str(limit)]
    demo = case.get('demo')
    if demo:                                     # binary mode is the default one there
        argv = [a for a in argv if a != '-b'] + ([] if o['binary'] else ['-t']) + ['--demo']
        if case['buffer']:
            argv += ['-f', str(case['buffer'] * 20)]
    base = app.ok(argv, data)
    dbg = app.ok(argv + ['-' + 'D' * case['level']], data)
    want = []
    rows = view.finish(term.parse(base.text))
    if demo:
        need(len(rows) > 2 and 'legend' in rows[-1].text and not rows[-2].text, 'no demo')
        del rows[-2:]                            # the hint
    for r in rows:
        p, body = view.split_prefix(r)
        want.append((''.join(c for c, _ in p), body))
    got = []
    for r in debug_rows(dbg):
        p, body = view.split_prefix(term.Row(r))
        got.append((''.join(c for c, _ in p), body))
    need(len(got) == len(want), lambda: f'{len(got)} regular rows in debug mode, {len(want)} without it')
    for i, ((gp, gb), (wp, wb)) in enumerate(zip(got, want)):
        need(gp.strip(' │') == wp.strip(' │'), lambda: f'row {i + 1} is labelled {gp!r} in debug mode, {wp!r} without it')
        # the inner separator of the table has another color in debug mode
        norm = lambda cells: [(c, DEFAULT if o['binary'] and c == '│' else s) for c, s in cells]
        view.same_cells(norm(gb), norm(wb), f'row {i + 1} in debug mode')
    ctx.nontrivial(len(want) >= 2)
    ctx.label('binary' if o['binary'] else 'text', f'level {case["level"]}', 'demo' if demo else 'input')
