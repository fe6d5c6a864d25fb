"""C04, C21: text mode lines."""
from hypothesis import strategies as st

from vlib import app, gen, view, model as M
from vlib.core import check
from vlib.view import need


def check_numbers(rows, first=1):
    for i, r in enumerate(rows):
        p = ''.join(c for c, _ in r.prefix)
        need(p == f'{first + i:2d}│', lambda: f'row {i + 1} is labelled {p!r}, expected {first + i:2d}│')


_lines = st.lists(st.one_of(st.sampled_from([b'', b'', b'a', b' ', b'\t', b'\r', b'\x0b', b'\x0c', b'\x85', b'\xc2\x85', b'\xe2\x80\xa8', b'\x1b', b'\x1b[', b'\x1b(', b'\xd0', b'\xe4\xb8', b'\x1b[31']),
                            gen.data(3)), max_size=14)


@st.composite
def _text_data(draw):
    k = draw(st.integers(0, 19))
    if k < 12:
        d = b'\n'.join(draw(_lines))
        return d + b'\n' if draw(st.booleans()) else d
    if k < 18:
        return draw(gen.mixed_data(14))
    if draw(st.integers(0, 7)) == 7:
        return draw(gen.long_data())
    n = draw(st.sampled_from([8, 97, 98, 99, 100, 998, 999, 1000, 1500, 1500, 9998, 10001]))
    body = draw(st.sampled_from([b'\n', b'a\n', b'\r\n', b'ab c\n']))
    return body * n + draw(gen.data(5))


@check('C04', lambda: st.fixed_dictionaries({'data': _text_data(), 'o': gen.opts(binary=False).map(lambda o: {**o, 'color_markers': False})}),
       quick=2400, thorough=60000,
       rule='random multi-line input (empty lines, CR, odd separators, missing final newline, up to 10000 lines, lines of up to 20000 pieces) x text mode options; '
            'non-trivial: at least three lines of which two differ')
def c04(case, ctx):
    o, data = case['o'], case['data']
    rows = view.text(app.ok(gen.argv(o), data), o['line_numbers'])
    lines = data.split(b'\n')
    n = len(lines) - (lines[-1] == b'')
    need(len(rows) == n, lambda: f'{len(rows)} rows for {n} input lines')
    if o['line_numbers']:
        check_numbers(rows)
    if not view.ambiguous(data):
        want = M.text_lines(data, gen.model_opts(o))
        for i, (r, w) in enumerate(zip(rows, want)):
            got, exp = ''.join(view.chars(r.cells)), ''.join(view.chars(w))
            need(got == exp, lambda: f'line {i + 1} ({lines[i]!r}) shown as {got!r}, expected {exp!r}')
    # a line ends with the line break marker exactly if the input line ends with a line break
    ctx.nontrivial(n >= 3 and len(set(lines)) >= 2)
    ctx.label('final newline' if data.endswith(b'\n') else 'no final newline', 'lines>99' if n > 99 else 'lines<=99')


# ------------------------------------------------------------------------------------------------ C21

def _part():
    return st.one_of(gen.data(12), gen.data(12), gen.joined(st.one_of(gen.sgr_seq(1), gen.sgr_seq(1), gen.words(), gen.any_escape()), 6))


@check('C21', lambda: st.fixed_dictionaries({'a': _part(), 'b': _part(), 'mix': st.lists(st.integers(0, 0xffff), max_size=4), 'o': gen.opts(), 'buffer': st.one_of(st.none(), st.none(), st.integers(1, 40))}),
       quick=1600, thorough=30000,
       rule='two random inputs, the first ended with a newline, the second one with (almost) the same pieces, rendered separately and joined; non-trivial: both parts have several tokens')
def c21(case, ctx):
    o = case['o']
    a, b = case['a'] + b'\n', case['b']
    for x in case.get('mix', ()):          # parts of the first input come again in the second one, some of them slightly different
        ts = M.tokenize(a)
        p = ts[x % len(ts)].raw
        if x & 64 and len(p) > 1:
            at = 1 + x // 128 % (len(p) - 1)
            p = p[:at] + [b'', b'0', b';', b'<', b' ', bytes([p[at] ^ 1])][x % 6] + p[at + (x & 32 == 0):]
        b = b + p if x & 16 else p + b
    argv = gen.argv(o) + (['-f', str(gen.fit(case['buffer'], a + b))] if case['buffer'] else [])
    if o['binary']:
        f = lambda d: view.binary(app.ok(argv, d), offsets=o['offsets'] != 'none', cols=o['columns']).stream()
        whole, parts = f(a + b), f(a) + f(b)
        i = view.first_diff(whole, parts)
        need(i is None, lambda: f'byte {i}: {whole[i:i + 1]} in the joined input, {parts[i:i + 1]} separately')
    else:
        f = lambda d: view.text(app.ok(argv, d), o['line_numbers'])
        ra, rb, rw = f(a), f(b), f(a + b)
        view.same_rows([r.cells for r in rw], [r.cells for r in ra + rb], 'joined input')
        if o['line_numbers']:
            check_numbers(rw)
    ctx.nontrivial(len(M.tokenize(a)) >= 3 and len(M.tokenize(b)) >= 3)
    ctx.label('binary' if o['binary'] else 'text')
