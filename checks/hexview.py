"""C01, C02, C03, C23: the binary mode table."""
from hypothesis import strategies as st

from vlib import app, gen, term, view, model as M
from vlib.core import check
from vlib.lib import load
from vlib.term import sgr, DEFAULT
from vlib.view import need


def _case(data=None, **kw):
    usual = st.fixed_dictionaries({'data': gen.mixed_data() if data is None else data, 'o': gen.opts(binary=True), **kw})
    wide = st.tuples(gen.wide(), st.fixed_dictionaries(kw)).map(lambda t: {**t[0], **t[1]})
    return st.integers(0, 24).flatmap(lambda k: wide if k == 7 else usual)


def _run(case, argv=None, **kw):
    o = case['o']
    res = app.ok((argv or gen.argv(o)) + list(case.get('extra', ())), case['data'], **kw)
    return view.binary(res, offsets=o['offsets'] != 'none', cols=o['columns'])


# ------------------------------------------------------------------------------------------------ C01

@check('C01', lambda: _case(buffer=st.one_of(st.none(), st.none(), st.integers(1, 64))), quick=2400, thorough=60000,
       rule='random input bytes (all character classes, chunk-boundary sized inputs) x random binary mode options; '
            'non-trivial: at least two rows and two character classes')
def c01(case, ctx):
    o, data = case['o'], case['data']
    argv = gen.argv(o) + (['-f', str(case['buffer'])] if case['buffer'] else [])
    v = view.binary(app.ok(argv, data), offsets=o['offsets'] != 'none', cols=o['columns'])
    got = v.data
    if got != data:
        i = view.first_diff(got, data)
        need(False, lambda: f'hex column shows {got[max(0, i - 4):i + 8].hex(" ")} where the input has {data[max(0, i - 4):i + 8].hex(" ")} '
                            f'(byte {i}; {len(got)} bytes shown, {len(data)} in the input)')
    ctx.nontrivial(len(v.rows) >= 2 and len({t.cls for t in M.tokenize(data)}) >= 2)
    ctx.label('decode' if o['decode'] else 'plain', 'big' if len(data) > 4000 else 'small', 'chunked' if case['buffer'] else 'default chunk')


# ------------------------------------------------------------------------------------------------ C02

_width = st.one_of(st.integers(30, 140), st.integers(1, 60), st.sampled_from([10, 31, 47, 48, 49, 64, 65, 80, 81, 82, 99, 100, 120, 160, 200, 240, 300, 500]))


@check('C02', lambda: st.one_of(_case(term=st.just(80)),
                               st.fixed_dictionaries({'data': gen.mixed_data(14, around=(300, 4096)), 'term': _width, 'tty': st.sampled_from([False, False, True]), 'auto': st.sampled_from([None, None, None, '0', '-1', '-5', '-16', '-100', '-4096']),
                                                      'o': gen.opts(binary=True).map(lambda o: {**o, 'columns': None})})),
       quick=2000, thorough=50000,
       rule='random input x explicit column count (half of the cases) or random terminal width; non-trivial: at least two rows, the last one incomplete')
def c02(case, ctx):
    o, data, term = case['o'], case['data'], case['term']
    offsets = o['offsets'] != 'none'
    cols = o['columns']
    if cols is None:
        ref = view.binary(app.ok(gen.argv({'binary': True, 'offsets': o['offsets']}), b'.' * (term + 8), columns=term), offsets=offsets)
        cols = len(ref.rows[0].values)
        need(cols >= 4 and cols % 4 == 0, lambda: f'auto width: {cols} columns, expected a multiple of four; terminal width {term}')
        if cols > 4:
            need(len(ref.rows[0].row) <= term, lambda: f'auto width: row of {len(ref.rows[0].row)} cells does not fit the terminal of {term}')
        need(cols >= max(1, (term - 31) // 17) * 4, lambda: f'auto width: only {cols} columns on a terminal of {term}')
        ctx.label('auto width')
    res = app.ok(gen.argv(o) + (['-w', case['auto']] if case.get('auto') else []), data, columns=term)
    if case.get('tty'):      # the width of an actual terminal
        shown = app.ok(gen.argv(o), data, columns=None, stdout_mode='tty', size=[term, 24], take=1 << 30)
        need(shown.out == res.out, lambda: f'output on a terminal of {term} columns differs from the one with COLUMNS={term}: {shown.text[:200]!r} against {res.text[:200]!r}')
        ctx.label('terminal')
    v = view.binary(res, offsets=offsets, cols=cols)
    sizes = [len(r.values) for r in v.rows]
    want = [cols] * (len(data) // cols) + ([len(data) % cols] if len(data) % cols else [])
    need(sizes == want, lambda: f'bytes per row {sizes}, expected {want}')
    for r in v.rows:
        gap = 3 * (cols - len(r.values)) + 1
        need(len(r.gap) == gap, lambda: f'text column of a row is not aligned: {r.row.text!r}')
        need(len(r.cells) == len(r.values), lambda: f'{len(r.values)} bytes but {len(r.cells)} characters in the row {r.row.text!r}')
    if offsets and v.rows:
        pos = {len(r.prefix) for r in v.rows}
        need(len(pos) == 1 or len(data) >= 1000000, lambda: f'prefix columns of different widths: {pos}')
    ctx.nontrivial(len(v.rows) >= 2 and sizes[-1] < cols)
    ctx.label(f'rows {min(len(v.rows), 5)}+')


# ------------------------------------------------------------------------------------------------ C03

@st.composite
def _long_input(draw):
    """Cheap but long: offsets get more digits."""
    sizes = [255, 256, 4095, 4096, 9999, 10000, 65535, 65536, 65540, 99999, 100000]
    n = draw(st.sampled_from(sizes * 4 + [131072, 1000000, 1048576]))
    n += draw(st.integers(0, 40))
    fill = draw(st.sampled_from([b'a', b'\x00', b'\xff', b' ']))
    cols = draw(st.sampled_from([64, 100, 256, 512, 999]))
    while n // cols > 400:
        cols *= 4
    return {'head': draw(gen.data(4)), 'fill': fill, 'n': n, 'tail': draw(gen.data(4)), 'cols': cols, 'dec': draw(st.booleans())}


_c03_small = st.builds(lambda d, c, dec: {'head': d, 'fill': b'', 'n': 0, 'tail': b'', 'cols': c, 'dec': dec},
                       gen.mixed_data(14), st.integers(1, 40), st.booleans())


#: offsets in inputs which are too long to be really read
_far = st.fixed_dictionaries({'far': st.one_of(st.tuples(st.integers(0, 20), st.integers(-2, 2)).map(lambda t: max(0, 10 ** t[0] + t[1])),
                                               st.tuples(st.integers(0, 64), st.integers(-2, 2)).map(lambda t: max(0, 2 ** t[0] + t[1])), st.integers(0, 1 << 44)), 'dec': st.booleans()})


def _labels(far, dec):
    """Prefixes of a row and of the total size, made by the application for an offset; None if they are made in another way now."""
    try:
        console, settings = load('kolombos.console').Console, load('kolombos.settings').SettingsManager
        settings.init()
        settings.app_settings.decimal_offsets = dec
        make = console.format_prefix_with_offset, console.format_total_size
        return [f(far) for f in make] if [f(255) for f in make] else None
    except (AttributeError, ImportError, TypeError):
        return None


@check('C03', lambda: st.one_of(_c03_small, _c03_small, _c03_small, _far, _long_input()), quick=1000, thorough=25000,
       rule='random input x column count x offset base, a fifth of the inputs up to a megabyte long, and labels of larger offsets (up to 2^64); non-trivial: at least three rows')
def c03(case, ctx):
    if 'far' in case:
        for label in _labels(case['far'], case['dec']) or ():
            _offset(term.strip_sgr(label).partition('│'), case['far'], case['dec'], f'offset {case["far"]}')
        ctx.label('far')
        return
    data = case['head'] + case['fill'] * case['n'] + case['tail']
    argv = ['-b', '-w', str(case['cols'])] + (['--decimal-offsets'] if case['dec'] else [])
    rows = term.strip_sgr(app.ok(argv, data).text).split('\n')
    need(rows[-2:] == ['', ''], 'output does not end with a blank line')
    rows, total = rows[:-3], rows[-3]
    need(len(rows) == -(-len(data) // case['cols']), lambda: f'{len(rows)} rows for {len(data)} bytes, {case["cols"]} per row')
    for i, row in enumerate(rows):
        _offset(row.partition('│'), i * case['cols'], case['dec'], f'row {i}')
    _offset(total.partition('│'), len(data), case['dec'], 'total size row')
    need(total.endswith('│'), lambda: f'malformed total size row {total!r}')
    ctx.nontrivial(len(rows) >= 3)
    ctx.label(f'offset digits {len(str(len(data)))}', 'decimal' if case['dec'] else 'hex')


def _offset(cells, want, dec, what):
    text = cells[0] + cells[1]
    need(cells[1] and len(text) >= 9, lambda: f'{what}: malformed offset column {text[:60]!r}')
    label = text[:-1].lstrip(' ')
    need(len(text) == max(9, len(label) + 1), lambda: f'{what}: offset is not right-aligned: {text!r}')
    if dec:
        need(label == str(want), lambda: f'{what}: offset {label!r}, expected {want} in decimal')
    else:
        digits = label[2:]
        need(label[:2] == '0x' and digits and all(c in view.HEX for c in digits) and int(digits, 16) == want,
             lambda: f'{what}: offset {label!r}, expected 0x{want:04x}')
        need(len(digits) >= 4 and len(digits) % 2 == 0, lambda: f'{what}: offset {label!r} is not padded to an even number of digits, at least four')


# ------------------------------------------------------------------------------------------------ C23

@check('C23', lambda: _case(gen.mixed_data(14, around=(4096,)), other=st.one_of(st.none(), st.integers(1, 70), st.integers(1, 70), st.sampled_from([100, 128, 256, 512, 1024])),
                            off2=st.sampled_from(['hex', 'dec', 'none'])), quick=1600, thorough=40000,
       rule='random input x options, rendered with two row widths / offset formats; non-trivial: some token is split between rows in one rendering')
def c23(case, ctx):
    o, data = case['o'], case['data']
    a = _run(case).stream()
    o2 = {**o, 'columns': case['other'], 'offsets': case['off2']}
    b = _run({'o': o2, 'data': data}).stream()
    i = view.first_diff(a, b)
    need(i is None, lambda: f'byte {i}: {a[i:i + 1]} with {gen.argv(o)}, {b[i:i + 1]} with {gen.argv(o2)}')
    ctx.nontrivial(any(len(t.raw) > 1 and t.offset // o['columns'] != (t.offset + len(t.raw) - 1) // o['columns'] for t in M.tokenize(data)))
    ctx.label('decode' if o['decode'] else 'plain')
