"""C05-C11: how every kind of byte is shown, and what the class flags change."""
from hypothesis import strategies as st

from vlib import app, gen, view, model as M, term
from vlib.core import check
from vlib.term import sgr, DEFAULT
from vlib.view import need


def render(o, data, extra=()):
    """Rows of cells (text mode), or the per-byte (hex style, char, style) list as one row (binary mode)."""
    res = app.ok(gen.argv(o) + list(extra), data)
    if o['binary']:
        v = view.binary(res, offsets=o['offsets'] != 'none', cols=o['columns'])
        s = v.stream()
        need(bytes(x[0] for x in s) == data, 'the hex column does not show the input')
        return [[((c, h), cs) for _, h, c, cs in s]]
    return [r.cells for r in view.text(res, o['line_numbers'])]


def against_model(o, data, what):
    """The whole picture - glyphs and styles - equals the reference rendering."""
    got = render(o, data)
    mo = gen.model_opts(o)
    if o['binary']:
        want = [[((c, s), s) for c, s in M.byte_cells(data, mo)]]
        i = view.first_diff(got[0], want[0])
        if i is not None:
            t = next(t for t in M.tokenize(data) if t.offset <= i < t.offset + len(t.raw))
            (gc, gh), gs = got[0][i] if i < len(got[0]) else (('nothing', DEFAULT), DEFAULT)
            (wc, wh), ws = want[0][i]
            need(False, lambda: f'{what}: byte {i} (0x{data[i]:02x}, of {t.kind} {t.raw!r}) is shown as {gc!r} [{view.style_str(gs)}; hex {view.style_str(gh)}], '
                                f'expected {wc!r} [{view.style_str(ws)}]')
    else:
        view.same_rows(got, M.text_lines(data, mo), what)
    return got


def plain(o):
    return {**o, 'focus': [], 'ignore': [], 'color_markers': False}


def only(pieces, max_size=12):
    return gen.joined(st.one_of(*pieces), max_size)


def _labels(ctx, o, data):
    ctx.label('binary' if o['binary'] else 'text')
    for k in {t.kind for t in M.tokenize(data)}:
        ctx.label(k)


# ------------------------------------------------------------------------------------------------ C05

_single = only([gen.runs_of(gen.PRINTABLES), gen.repeated(gen.CONTROLS), gen.runs_of(gen.CONTROLS + gen.CONTROLS[:1], 6), gen.repeated(gen.SPACES), gen.runs_of(gen.SPACES, 6),
                gen.runs_of(list(range(0x80, 0xc0)), 5), gen.lines(), gen.runs_of(list(range(0x00, 0x1b)) + list(range(0x1c, 0x100)), 6),
                st.sampled_from([b'\x1b', b'\x1b\x1b', b'\x1b\n', b'\x1b\x00', b'\x1b\x80'])], 14)


@check('C05', lambda: st.fixed_dictionaries({'data': _single, 'o': gen.opts().map(lambda o: {**plain(o), 'marker': 0})}),
       quick=2000, thorough=50000,
       rule='random runs of single-byte characters of every class x both modes, compared with the documented marker table; non-trivial: at least three character classes')
def c05(case, ctx):
    o, data = case['o'], case['data']
    if view.ambiguous(data):
        return
    against_model(o, data, 'character classes')
    ctx.nontrivial(len({t.kind for t in M.tokenize(data)}) >= 3)
    _labels(ctx, o, data)


# ------------------------------------------------------------------------------------------------ C06

_utf8 = only([gen.utf8_char(), gen.utf8_char(), gen.almost_utf8(), gen.almost_utf8(), gen.runs_of(list(range(0x80, 0x100)), 4), st.sampled_from([b'a', b'\n', b' ', b'\x00', b'\x1b'])], 14)


@check('C06', lambda: st.fixed_dictionaries({'data': _utf8, 'o': gen.opts().map(lambda o: {**plain(o), 'marker': 0})}), quick=2400, thorough=80000,
       rule='well-formed, overlong, surrogate, truncated and stray UTF-8 byte strings x both modes, with and without decoding, compared with Python\'s strict decoder; '
            'non-trivial: contains a valid multibyte character and an invalid byte')
def c06(case, ctx):
    o, data = case['o'], case['data']
    if view.ambiguous(data):
        return
    against_model(o, data, 'UTF-8')
    kinds = [t.kind for t in M.tokenize(data)]
    ctx.nontrivial(M.UTF8 in kinds and M.BINARY in kinds)
    ctx.label('binary' if o['binary'] else 'text', 'decode' if o.get('decode') else 'no decode', *{f'{len(t.raw)}-byte' for t in M.tokenize(data) if t.kind == M.UTF8})


# ------------------------------------------------------------------------------------------------ C07

_parts = st.lists(st.lists(st.sampled_from(['0', '1', '3', '4', '5', '38', '48', '58', '120', '']), min_size=1, max_size=5).map(':'.join), min_size=1, max_size=3).map(lambda p: b'\x1b[' + ';'.join(p).encode() + b'm')
_esc = only([_parts, st.sampled_from([b'\x1b[4:3m', b'\x1b[1;4:3m', b'\x1b[38:5:17m', b'\x1b[;1m', b'\x1b[1;m', b'\x1b[01m', b'\x1b[001;031m', b'\x1b[00;1m', b'\x1b[1;00m', b'\x1b[38;05;001m', b'\x1b[m', b'\x1b[0m']), gen.sgr_seq(), gen.sgr_seq(1), gen.csi_seq(), gen.csi_seq(), gen.nf_seq(), gen.two_byte_esc(), gen.broken_escape(),
             gen.runs_of([0x1b, 0x5b, 0x30, 0x3f, 0x20, 0x2f, 0x40, 0x5f, 0x60, 0x7e, 0x6d, 0x7f, 0x1f, 0x80, 0x3b], 6), gen.words(), gen.lines()], 9)


@check('C07', lambda: st.fixed_dictionaries({'data': _esc, 'o': gen.opts().map(lambda o: {**plain(o), 'marker': 2 if o.get('marker') else 0})}), quick=2400, thorough=80000,
       rule='escape sequences of every type, cut off and adjacent ones, compared with an independent scanner; non-trivial: at least two different escape types')
def c07(case, ctx):
    o, data = case['o'], case['data']
    if view.ambiguous(data, o):
        return
    against_model(o, data, 'escape sequences')
    ctx.nontrivial(len({t.kind for t in M.tokenize(data)} & {*M.ESCAPES, M.ESC}) >= 2)
    _labels(ctx, o, data)


# ------------------------------------------------------------------------------------------------ C08

_marked = only([gen.sgr_seq(), gen.sgr_seq(1), gen.sgr_seq(1), gen.csi_seq(), gen.nf_seq(), gen.two_byte_esc(), gen.repeated(gen.CONTROLS), gen.runs_of(gen.CONTROLS, 5),
                gen.lines(), gen.words(), gen.utf8_char(), gen.runs_of(gen.SPACES, 3)], 10)


@check('C08', lambda: st.fixed_dictionaries({'data': _marked, 'level': st.sampled_from([0, 1, 1, 2, 2, 3, 7, -1]), 'o': gen.opts(binary=False).map(plain), 'b': gen.opts(binary=True).map(plain),
                                             'flags': gen.class_flags(), 'odd': st.one_of(st.none(), st.none(), gen.sgr_weird())}),
       quick=2000, thorough=60000,
       rule='control characters and escape sequences x marker detail level x separators, compared with the documented detail format; also in binary mode, where the level must not matter; '
            'non-trivial: level 1 or 2, at least two different markers with details')
def c08(case, ctx):
    data = case['data']
    if view.ambiguous(data):
        return
    focus, ignore = case['flags']
    o = {**case['o'], 'marker': case['level'], 'focus': focus, 'ignore': ignore}
    model_o = {**o, 'marker': min(max(case['level'], 0), 2)}
    got = render(o, data)
    view.same_rows(got, M.text_lines(data, gen.model_opts(model_o)), f'marker details {case["level"]}')
    if case.get('odd'):
        # whatever the details of an unusual sequence are, they are those of this very sequence
        alone, after = render(o, case['odd'] + b'\n'), render(o, data + b'\n' + case['odd'] + b'\n')
        view.same_rows(after[-len(alone):], alone, f'{case["odd"]!r} after other sequences')
        ctx.label('unusual sequence')
    if case['level'] in (1, 2) and len(data) % 4 == 0:
        b = case['b']
        need(render(b, data) == render(b, data, ['-m', str(case['level']), '--no-separators']), 'marker details affect binary mode')
        ctx.label('binary')
    ctx.nontrivial(case['level'] > 0 and len({t.raw for t in M.tokenize(data) if t.kind == M.CONTROL or t.kind in M.ESCAPES}) >= 2)
    ctx.label(f'level {case["level"]}', 'separators' if o['separators'] else 'no separators')


# ------------------------------------------------------------------------------------------------ C09, C10

@check('C09', lambda: st.fixed_dictionaries({'data': gen.mixed_data(12, around=(4096,)), 'o': gen.opts(), 'more': st.sets(st.sampled_from(M.CLASSES), min_size=1).map(sorted)}), quick=2000, thorough=50000,
       rule='random input x random non-empty set of ignored classes x other options; compared with the reference rendering and, byte by byte, with the same run without the ignore flags; '
            'non-trivial: both ignored and other bytes present')
def c09(case, ctx):
    o = case['o']
    ignore = sorted(set(o['ignore']) | set(case['more']))
    o = {**o, 'ignore': ignore, 'focus': [c for c in o['focus'] if c not in ignore]}
    _flagged(case['data'], o, ctx, 'ignore')


@check('C10', lambda: st.fixed_dictionaries({'data': gen.mixed_data(12, around=(4096,)), 'o': gen.opts(), 'more': st.sets(st.sampled_from(M.CLASSES), min_size=1).map(sorted)}), quick=2000, thorough=50000,
       rule='random input x random non-empty set of focused classes x other options; compared with the reference rendering and, byte by byte, with the same run without the focus flags; '
            'non-trivial: both focused and other bytes present')
def c10(case, ctx):
    o = case['o']
    focus = sorted(set(o['focus']) | set(case['more']))
    o = {**o, 'focus': focus, 'ignore': [c for c in o['ignore'] if c not in focus]}
    _flagged(case['data'], o, ctx, 'focus')


def _flagged(data, o, ctx, which):
    tokens = M.tokenize(data)
    amb = any(t.ambiguous for t in tokens)
    if o['binary'] or not amb:
        base = render({**o, which: []}, data)
        got = render(o, data)
        mo = gen.model_opts(o)
        if o['binary']:
            per_byte = [t for t in tokens for _ in t.raw]
            for i, (g, b) in enumerate(zip(got[0], base[0])):
                t = per_byte[i]
                if t.cls not in o[which]:
                    need(g == b, lambda: f'byte {i} (0x{data[i]:02x}, {t.kind}) is not of a class given to {which} {o[which]}, but is shown as {g}, without the flags as {b}')
                elif which == 'ignore':
                    need(g == ((M.IGNORED, M.IGNORED_STYLE), M.IGNORED_STYLE),
                         lambda: f'ignored byte {i} (0x{data[i]:02x}, {t.kind}) is shown as {g}')
                else:
                    need(g[0][0] == b[0][0] or t.kind == M.SPACE, lambda: f'focused byte {i} (0x{data[i]:02x}, {t.kind}) is shown as {g}, without focus as {b}')
        if not amb:
            against = M.text_lines(data, mo) if not o['binary'] else [[((c, s), s) for c, s in M.byte_cells(data, mo)]]
            if o['binary']:
                i = view.first_diff(got[0], against[0])
                need(i is None, lambda: f'{which} {o[which]}: byte {i} (0x{data[i]:02x}) is shown as {got[0][i:i + 1]}, expected {against[0][i:i + 1]}')
            else:
                view.same_rows(got, against, f'{which} {",".join(o[which])}')
                need(len(base) == len(got), lambda: f'{len(got)} rows, without the {which} flags {len(base)}')
    classes = {t.cls for t in tokens}
    ctx.nontrivial(bool(classes & set(o[which])) and bool(classes - set(o[which])))
    ctx.label('binary' if o['binary'] else 'text', *[f'{which} {c}' for c in set(o[which]) & classes])


# ------------------------------------------------------------------------------------------------ C11

_colored = only([gen.sgr_seq(), gen.sgr_seq(1), gen.sgr_seq(1), gen.sgr_seq(1), gen.csi_seq(), gen.two_byte_esc(), gen.lines(), gen.words(), gen.utf8_char(), gen.repeated(gen.CONTROLS),
                 gen.runs_of(gen.SPACES, 3)], 9)


@check('C11', lambda: st.fixed_dictionaries({'data': _colored, 'o': gen.opts().map(lambda o: {**o, 'color_markers': True})}), quick=2200, thorough=60000,
       rule='SGR sequences of every code, indexed and RGB colors, among other input; colored markers against the reference and against the run without the option; '
            'non-trivial: at least two SGR sequences with applicable codes')
def c11(case, ctx):
    o, data = case['o'], case['data']
    if view.ambiguous(data):
        return
    got = against_model(o, data, 'colored markers')
    base = render({**o, 'color_markers': False}, data)
    need([[c[0] if isinstance(c, tuple) else c for c, _ in r] for r in got] == [[c[0] if isinstance(c, tuple) else c for c, _ in r] for r in base],
         'coloring of the markers changes the characters shown')
    sg = [t for t in M.tokenize(data) if t.kind == M.SGR]
    ctx.nontrivial(sum(bool(M.colored(t.raw)) for t in sg) >= 2)
    ctx.label('binary' if o['binary'] else 'text')
