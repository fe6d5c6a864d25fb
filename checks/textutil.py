"""T09-T13: string filters, alignment and number formatting."""
import math
import re
from fractions import Fraction

from hypothesis import strategies as st

from vlib.core import check, Violation
from vlib.lib import load
from vlib.view import need

# ------------------------------------------------------------------------------------------------ T09

_word = st.text(st.characters(codec='utf-8', exclude_characters='\x1b', exclude_categories=['Cs']), max_size=6)
_piece = st.one_of(
    _word.map(lambda s: ['text', s]),
    st.text('0123456789;m[] \t', max_size=5).map(lambda s: ['text', s]),
    st.text('\r\n\t \x0b\x0c\x85\u2028ab', max_size=6).map(lambda s: ['text', s]),
    st.text('0123456789;', max_size=7).map(lambda s: ['sgr', '\x1b[' + s + 'm']),
    st.lists(st.integers(0, 255), max_size=4).map(lambda p: ['sgr', '\x1b[' + ';'.join(map(str, p)) + 'm']),
    st.tuples(st.text('0123456789;:<=>?', max_size=4), st.sampled_from('ABCDHJKSTfhlnsu@Xm')).map(lambda t: ['sgr' if t[1] == 'm' and not set(t[0]) & set(':<=>?') else 'csi', '\x1b[' + ''.join(t)]),
    st.tuples(st.text('0123456789;:<=>?', max_size=3), st.text(' !"#$%&\'()*+,-./', max_size=2), st.one_of(st.sampled_from('~q@m'), st.sampled_from([chr(c) for c in range(0x40, 0x7f)])))
      .map(lambda t: ['sgr' if t[2] == 'm' and not t[1] and not set(t[0]) & set(':<=>?') else 'csi', '\x1b[' + ''.join(t)]),
    st.sampled_from(['\x1b', '\x1b(B', '\x1b]', '\x1b ']).map(lambda s: ['esc', s]))


def kind_text(pieces, drop):
    return ''.join(s for k, s in pieces if k not in drop)


@check('T09', lambda: st.fixed_dictionaries({'pieces': st.lists(_piece, max_size=7), 'width': st.integers(-2, 40), 'fill': st.sampled_from(' *·0'), 'repl': st.sampled_from(['', '?', '<>', '·']), 'own': st.sampled_from(['', 'X', '<', '·é']),
                                             'bytes': st.binary(max_size=12), 'order': st.permutations(['sgr', 'csi', 'ws'])}), quick=30000, thorough=1000000,
       rule='random strings of text, SGR, other CSI and bare escapes through filters and alignment; non-trivial: sequences and text mixed, padding needed')
def t09(case, ctx):
    u = load('pytermor.util')
    # a piece of text right after a bare ESC could complete it to a sequence: keep such cases well-defined
    pieces = []
    for k, s in case['pieces']:
        if pieces and pieces[-1][0] == 'esc' and k == 'text' and pieces[-1][1] == '\x1b':
            s = ' ' + s
        pieces.append([k, s])
    s = ''.join(x for _, x in pieces)
    repl = case['repl']
    sgr = ''.join(repl if k == 'sgr' else x for k, x in pieces)
    csi = ''.join(repl if k in ('sgr', 'csi') else x for k, x in pieces)
    for f, want in ((u.ReplaceSGR, sgr), (u.ReplaceCSI, csi)):
        got = f(repl).apply(s)
        need(got == want and f(repl)(s) == want and u.apply_filters(s, f(repl)) == want, lambda: f'{f.__name__}({repl!r}) turns {s!r} into {got!r}, expected {want!r}')
    need(u.apply_filters(s, u.ReplaceSGR) == kind_text(pieces, ('sgr',)), lambda: f'removing SGR from {s!r} gives {u.apply_filters(s, u.ReplaceSGR)!r}')
    ws = ''.join(repl + '\n' if c == '\n' else repl if c.isspace() else c for c in s)
    got = u.VisualuzeWhitespace(repl).apply(s)
    need(got == ws, lambda: f'whitespace of {s!r} is shown as {got!r}, expected {ws!r}')
    raw = case['bytes']
    want = bytes(b if b < 128 else 63 for b in raw)
    need(u.apply_filters(raw, u.ReplaceNonAsciiBytes) == want, lambda: f'non-ASCII bytes of {raw!r}: {u.apply_filters(raw, u.ReplaceNonAsciiBytes)!r}')
    r = repl.encode()
    need(u.ReplaceNonAsciiBytes(r).apply(raw) == b''.join(bytes([b]) if b < 128 else r for b in raw), lambda: f'replacing non-ASCII bytes of {raw!r} by {r!r}')
    # filters of one's own: by a pattern or a compiled one, with a string or a function
    own, texts = case.get('own', ''), (s, s.encode())
    for text in texts:
        enc = (lambda x: x.encode()) if isinstance(text, bytes) else (lambda x: x)
        want = enc('').join(enc(own + c + c + own if c in 'a1[' else c) for c in s)
        for pattern in (enc('([a1[])'), re.compile(enc('([a1[])'))):
            for r in (enc(own + '\\1\\1' + own), lambda m: enc(own) + m.group(1) * 2 + enc(own)):
                f = u.StringFilter(pattern, r)
                need(f.apply(text) == want == f(text) == u.apply_filters(text, f), lambda: f'filter of {pattern!r} turns {text!r} into {f.apply(text)!r}, expected {want!r}')
    mixed = [u.ReplaceSGR, u.StringFilter('([a1[])', own + '\\1'), u.VisualuzeWhitespace]
    step = u.VisualuzeWhitespace().apply(u.StringFilter('([a1[])', own + '\\1').apply(u.ReplaceSGR().apply(s)))
    need(u.apply_filters(s, *mixed) == step and u.apply_filters(s) == s, lambda: f'classes and objects of filters turn {s!r} into {u.apply_filters(s, *mixed)!r}, one by one into {step!r}')
    # several filters are applied one after another, in the given order
    filters = {'sgr': u.ReplaceSGR(' a'), 'csi': u.ReplaceCSI(' b'), 'ws': u.VisualuzeWhitespace('_')}
    step = s
    for name in case['order']:
        step = filters[name].apply(step)
    got = u.apply_filters(s, *(filters[n] for n in case['order']))
    need(got == step, lambda: f'filters {case["order"]} turn {s!r} into {got!r}, one by one into {step!r}')

    visible = len(kind_text(pieces, ('sgr',)))
    width, fill = case['width'], case['fill']
    pad = max(0, width - visible)
    for name, ok in (('ljust_sgr', {pad}), ('rjust_sgr', {0}), ('center_sgr', {pad // 2, pad - pad // 2})):
        got = getattr(u, name)(s, width, fill)
        need(any(got == fill * (pad - a) + s + fill * a for a in ok), lambda: f'{name}({s!r}, {width}, {fill!r}) is {got!r}')
        if fill == ' ':
            need(getattr(u, name)(s, width) == got, lambda: f'{name}: default fill of {s!r}')
    kinds = {k for k, x in pieces if x}
    ctx.nontrivial(pad > 0 and 'sgr' in kinds and 'text' in kinds)


# ------------------------------------------------------------------------------------------------ T10

_digits = st.integers(0, 10 ** 17)
_scaled = st.tuples(_digits, st.integers(-330, 300)).map(lambda t: float(f'{t[0]}e{t[1]}'))
_near = st.tuples(st.integers(-8, 12), st.sampled_from([-9, -5, -1, 0, 1, 4, 5, 6]), st.integers(1, 8)).map(lambda t: float(f'1e{t[0]}') * (1 + t[1] / 10 ** t[2]))
_ulps = st.tuples(st.one_of(st.integers(-8, 20), st.integers(-300, 300)), st.integers(-3, 3)).map(lambda t: _nudge(float(f'1e{t[0]}'), t[1]))


def _nudge(v, k):
    """The k-th next floating point number."""
    for _ in range(abs(k)):
        v = math.nextafter(v, math.inf if k > 0 else -math.inf)
    return v


_common = st.one_of(_ulps, st.integers(1, 5).map(lambda k: k * 5e-324), st.floats(0, 1e7), st.integers(0, 10 ** 9).map(float), _near, _scaled, st.floats(min_value=0, allow_infinity=False), st.just(0.0), st.integers(0, 10 ** 12))
_signed = st.tuples(_common, st.booleans()).map(lambda t: -t[0] if t[1] else t[0]).filter(lambda v: abs(v) != float('inf'))

NUM_RE = re.compile(r'( *)-?(\d+)(?:\.(\d+))?(?:e(-?\d+))?')


@check('T10', lambda: st.fixed_dictionaries({'v': _signed, 'len': st.integers(1, 12), 'exp': st.booleans()}), quick=45000, thorough=2000000,
       rule='random numbers of every magnitude, around powers of ten in particular, x length 1..12 x exponent notation; non-trivial: a fractional number or an exponent is displayed')
def t10(case, ctx):
    u = load('pytermor.util')
    v, n = case['v'], case['len']
    try:
        got = u.format_auto_float(v, n, case['exp'])
    except ValueError:
        avail = n - (v < 0)
        need(not case['exp'] and abs(v) >= 10 ** avail, lambda: f'{v!r} is refused for length {n}')
        ctx.label('refused')
        return
    need(case['exp'] or len(str(int(abs(v)))) <= max(1, n - (v < 0)) or (v < 0 and n == 1), lambda: f'{v!r} is displayed as {got!r} in {n} characters without an exponent')
    what = lambda: f'{v!r} is displayed as {got!r} in {n} characters'
    need(len(got) == n, lambda: f'{what()}: wrong length')
    if set(got) == {'!'}:
        # neither the number nor its order fits
        avail = n - (v < 0)
        order = int(f'{abs(v):.17e}'.split('e')[1]) if v else 0
        need(avail < 1 or (case['exp'] and (order >= avail or order < -1) and avail < max(len(f'e{o}') for o in (order - 1, order, order + 1))), lambda: f'{what()}: it fits')
        ctx.label('overflow')
        return
    m = re.fullmatch(r' *(-?)e(-?\d+)', got)
    if m:
        order = int(m.group(2))
        need(case['exp'] and v != 0 and (m.group(1) == '-') == (v < 0), what)
        need(Fraction(10) ** order * Fraction(999999, 10 ** 6) <= max(abs(Fraction(v)), Fraction(repr(abs(v)))) <= Fraction(10) ** (order + 1) * Fraction(1000001, 10 ** 6), lambda: f'{what()}: wrong order')
        ctx.label('order only')
        ctx.nontrivial()
        return
    m = NUM_RE.fullmatch(got)
    need(m, lambda: f'{what()}: not a number')
    frac, exp = m.group(3) or '', m.group(4)
    need(got.lstrip(' ').startswith('-') == (v < 0) and (exp is None or case['exp']), what)
    shown = Fraction(m.group(2) + '.' + (frac or '0')) * Fraction(10) ** int(exp or 0)
    unit = Fraction(10) ** (int(exp or 0) - len(frac))
    err = abs(shown - abs(Fraction(v)))
    # subnormal numbers have too few digits to be compared
    need(0 < abs(v) < 1e-300 or err <= unit * Fraction(1000001, 2 * 10 ** 6) or (err < unit and not frac), lambda: f'{what()}: off by {float(err)}')
    # no room is wasted: padding never stands where a digit could
    if m.group(1):
        need(v == 0 or (len(m.group(1)) == 1 and not frac), lambda: f'{what()}: too much padding')
    ctx.nontrivial(bool(frac) or exp is not None)
    ctx.label('exponent' if exp else 'fraction' if frac else 'integer')


# ------------------------------------------------------------------------------------------------ T11

PREFIXES = {p: i for i, p in enumerate(['y', 'z', 'a', 'f', 'p', 'n', 'μ', 'm', '', 'k', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y'], -8)}
_metric = st.one_of(st.just(0.0), st.tuples(st.integers(1, 10 ** 7), st.integers(-30, 20)).map(lambda t: float(f'{t[0]}e{t[1]}')),
                    st.tuples(st.integers(-24, 26), st.sampled_from([-5e-4, -1e-9, 0, 1e-9, 5e-4, 0.5, 4.5, 8.9994, 8.9996]), st.booleans()).map(lambda t: float(f'1e{t[0]}') * (1 + t[1])),
                    st.floats(1e-24, 1e27), _ulps.filter(lambda v: 1e-24 <= v < 0.9999e27), st.integers(0, 10 ** 12)).filter(lambda v: v == 0 or 1e-24 <= v < 0.9999e27)
_binary = st.one_of(st.just(0.0), st.tuples(st.integers(1, 8), st.integers(-3, 3)).map(lambda t: _nudge(1024.0 ** t[0], t[1])), st.tuples(st.integers(0, 8), st.floats(1, 1023.9999)).map(lambda t: 1024.0 ** t[0] * t[1]), st.integers(1, 5000), st.integers(1, 10 ** 15),
                    st.tuples(st.integers(0, 8), st.sampled_from([-1, 0, 1])).map(lambda t: 1024 ** t[0] + t[1])).filter(lambda v: v == 0 or 1 <= v < 1023.99 * 1024 ** 8)


#: values beyond all prefixes
_beyond = st.tuples(st.booleans(), st.sampled_from([1, 2, 9.9, 99, 700]), st.integers(0, 40)).map(lambda t: [t[1] * 1.1e27 * 10.0 ** t[2], t[1] * 1.3 * 1024.0 ** 9 * 10.0 ** t[2]] if t[0]
                                                                                          else [0.9e-24 / t[1] / 10.0 ** t[2], 0.9e-24 * 1024 ** -2 / t[1] / 10.0 ** t[2]])


@check('T11', lambda: st.fixed_dictionaries({'m': _metric, 'b': _binary, 'beyond': _beyond, 'neg': st.booleans(), 'unit': st.sampled_from(['', 'm', 'V', 'm²', 'bps', 'b'])}), quick=30000, thorough=1000000,
       rule='random values within the range of prefixes, near prefix boundaries in particular, and out of it; non-trivial: both values need a prefix')
def t11(case, ctx):
    u = load('pytermor.util')
    sign = -1 if case['neg'] else 1
    shown = []
    for fn, v, base, limit in ((u.format_si_metric, case['m'] * sign, 1000, 6), (u.format_si_binary, case['b'] * sign, 1024, 8)):
        got = fn(v, case['unit']) if case['unit'] else fn(v)
        unit = case['unit'] or ('m' if base == 1000 else 'b')
        what = lambda: f'{fn.__name__}({v!r}, {case["unit"]!r}) is {got!r}'
        m = re.fullmatch(r'(-?\d+(?:\.(\d+))?) ([yzafpnμmkMGTPEZY]?)' + re.escape(unit), got)
        if unit == 'm' and got.endswith(' m'):
            m = re.fullmatch(r'(-?\d+(?:\.(\d+))?) ()m', got)
        need(m, lambda: f'{what()}: malformed')
        # 6 characters without the unit, and 8 with a unit of one character
        need(len(got) - len(unit) <= (6 if base == 1000 else 7), lambda: f'{what()}: too long')
        order = PREFIXES[m.group(3)]
        num = Fraction(m.group(1))
        frac = len(m.group(2) or '')
        scale = Fraction(base) ** order
        unit_last = Fraction(1, 10 ** frac)
        err = abs(num - Fraction(v) / scale)
        slack = unit_last / 10 ** 6 + abs(num) / 10 ** 12
        truncated = base == 1024 and order == 0
        need(err <= (unit_last if truncated else unit_last / 2) + slack or (not frac and err < 1 + slack), lambda: f'{what()}: off by {float(err)} of the last digit {float(unit_last)}')
        need(v == 0 or (1 <= abs(num) <= base), lambda: f'{what()}: wrong prefix')
        need(v != 0 or (num == 0 and order == 0), lambda: f'{what()}: zero')
        # a number that does not take its room shows its decimals
        need(truncated or v == 0 or frac or abs(num) >= 10, lambda: f'{what()}: digits are lost')
        shown.append(order)
    for fn, v, base in zip((u.format_si_metric, u.format_si_binary), case['beyond'], (1000, 1024)):
        try:
            got = fn(v * sign, case['unit']) if case['unit'] else fn(v * sign)
        except ValueError:           # does not fit
            ctx.label('refused')
            continue
        need(re.fullmatch(r'-?[0-9.]+ \?' + re.escape(case['unit'] or ('' if base == 1000 else 'b')), got) or re.fullmatch(r'-?[0-9.]+ \?' + re.escape(case['unit'] or 'm'), got),
             lambda: f'{fn.__name__}({v * sign!r}, {case["unit"]!r}) is {got!r}, although there is no prefix for that')
    ctx.nontrivial(all(shown))


# ------------------------------------------------------------------------------------------------ T12

MIN, HOUR, DAY = 60, 3600, 86400
MONTH, YEAR = 30 * DAY, 360 * DAY
UNITS = {'s': 1, 'sec': 1, 'secs': 1, 'm': MIN, 'min': MIN, 'mins': MIN, 'h': HOUR, 'hr': HOUR, 'hour': HOUR, 'hours': HOUR, 'd': DAY, 'day': DAY, 'days': DAY,
         'M': MONTH, 'mon': MONTH, 'month': MONTH, 'months': MONTH, 'y': YEAR, 'yr': YEAR, 'year': YEAR, 'years': YEAR}
_time = st.one_of(st.floats(0, 200), st.floats(0, 4e5), st.integers(0, 40 * DAY), st.floats(0, 100 * YEAR), st.integers(0, 1100 * YEAR), st.floats(0, 1.5),
                  st.tuples(st.sampled_from([1, MIN, HOUR, DAY, MONTH, YEAR]), st.integers(0, 1100), st.sampled_from([-1, -0.5, -0.001, 0, 0.001, 0.5, 1])).map(lambda t: max(0, t[0] * t[1] + t[2])))


def time_limit(max_len):
    """Largest time that is guaranteed to be displayed, and the smallest one that may be an overflow."""
    return 99 * DAY if max_len == 3 else 99 * YEAR if max_len < 10 else 999 * YEAR


@check('T12', lambda: st.fixed_dictionaries({'v': _time, 'dv': st.one_of(st.floats(0, 100), st.sampled_from([1, MIN, HOUR, DAY, MONTH])), 'neg': st.booleans(), 'len': st.one_of(st.none(), st.integers(0, 14))}),
       quick=40000, thorough=1500000,
       rule='random times around unit boundaries x maximum length; non-trivial: the result combines two units, or is limited by the length')
def t12(case, ctx):
    u = load('pytermor.util')
    v, n = case['v'], case['len']
    args = () if n is None else (n,)
    try:
        got = u.format_time_delta(-v if case['neg'] else v, *args)
    except ValueError:
        need(n is not None and n < 3, lambda: f'{v} is refused for length {n}')
        return
    need(n is None or n >= 3, lambda: f'length {n} is accepted: {got!r}')
    limit = 10 if n is None else n
    # the longest format that fits is the one used
    fmt = max(x for x in (3, 4, 6, 10) if x <= limit)
    same = u.format_time_delta(-v if case['neg'] else v, fmt)
    need(got == same, lambda: f'{v!r} is displayed as {got!r} in {n} characters, and as {same!r} in {fmt}')
    what = lambda: f'{v!r} (negative: {case["neg"]}) is displayed as {got!r} in {n} characters'
    need(len(got) <= limit, lambda: f'{what()}: too long')
    top = time_limit(limit)
    value = parse_time(got, v, case['neg'] and limit >= 10, what)
    if value is None:
        need(v > top, lambda: f'{what()}: overflow')
        ctx.label('overflow')
        return
    need(v < top * 1.02 + DAY or v < top + YEAR, lambda: f'{what()}: overflow is not reported')
    lo, res, combined = value
    need(lo <= v < lo + res or (v == lo), lambda: f'{what()}: stands for {lo}..{lo + res}')
    # the resolution is as good as it gets: a single unit is the largest that is not greater than the time
    if not combined and v >= 1:
        bigger = [x for x in sorted(set(UNITS.values())) if x > res and not (limit == 3 and x > DAY)]
        need(not bigger or v < bigger[0], lambda: f'{what()}: a larger unit fits')
        need(v >= res, lambda: f'{what()}: the unit is too large')
    if combined:
        need(limit >= 6, what)
    more = parse_time(u.format_time_delta(v + case['dv'], *args), v + case['dv'], False, what)
    need(more is None or more[0] >= lo or more[0] + more[1] > lo, lambda: f'{what()}: longer time {v + case["dv"]!r} is displayed as a shorter one')
    ctx.nontrivial(combined or (n is not None and n < 10 and v >= 1))
    ctx.label(f'unit {res}' + (' combined' if combined else ''))


def parse_time(got, v, negative, what):
    """(lower bound, resolution, combined) or None for an overflow."""
    s = got.strip()
    if 'OVERFLOW'.startswith(s) or s in ('ERR', 'ERRO'):
        return None
    m = re.fullmatch(r'~0 ?([A-Za-z]+)', s)
    if m:
        need(negative and v < 1 and UNITS.get(m.group(1)) == 1, what)
        return 0, 1, False
    m = re.fullmatch(r'<1 ?([A-Za-z]+)', s)
    if m:
        need(0 < v < 1 and UNITS.get(m.group(1)) == 1, what)
        return 0, 1, False
    m = re.fullmatch(r'(-?)(\d+) ?([A-Za-z]+)', s)
    if m:
        need(m.group(3) in UNITS, what)
        need((m.group(1) == '-') == (negative and v >= 1), lambda: f'{what()}: sign')
        unit, num = UNITS[m.group(3)], int(m.group(2))
        need(num != 0 or v <= 0.001 or negative, lambda: f'{what()}: zero')
        need(m.group(3)[-1] != 's' or m.group(3) == 's' or num != 1, lambda: f'{what()}: plural')
        need(m.group(3) not in ('hour', 'day', 'month', 'year') or num == 1 or len(got) < 7, lambda: f'{what()}: singular')
        return num * unit, unit, False
    m = re.fullmatch(r'(-?)(\d+)([A-Za-z]+) ?(\d+)([A-Za-z]+)', s)
    need(m and m.group(3) in UNITS and m.group(5) in UNITS, lambda: f'{what()}: malformed')
    need((m.group(1) == '-') == negative, lambda: f'{what()}: sign')
    big, small = UNITS[m.group(3)], UNITS[m.group(5)]
    need(small < big and int(m.group(4)) * small < big, lambda: f'{what()}: units')
    return int(m.group(2)) * big + int(m.group(4)) * small, small, True


# ------------------------------------------------------------------------------------------------ T14

_names = st.sampled_from(['k', 'M', 'G', 'T', 'Ki', 'Mi', 'Gi', 'm', 'μ', 'n', 'кило', 'd', 'h'])


@st.composite
def _prefixed(draw):
    base = draw(st.sampled_from([1000, 1024, 60, 100, 10, 2]))
    names = draw(st.lists(_names, min_size=1, max_size=7, unique=True))
    zero = draw(st.integers(0, len(names)))
    names.insert(zero, None)
    top = len(names) - zero
    v = draw(st.one_of(st.tuples(st.integers(-zero, top - 1), st.floats(1, base)).map(lambda t: float(base) ** t[0] * t[1]), st.integers(0, 5000), st.just(0.0), st.floats(0, 3),
                       st.tuples(st.integers(-zero - 1, top), st.sampled_from([1, 1 - 1e-9, 1 + 1e-9, 0.9996, 1.5])).map(lambda t: float(base) ** t[0] * t[1])))
    return {'base': base, 'names': names, 'zero': zero, 'v': v, 'neg': draw(st.booleans()), 'len': len(str(base - 1)) + 1 + draw(st.integers(0, 4)), 'trunc': draw(st.booleans()),
            'sep': draw(st.sampled_from([None, '', ' ', '_', ' :'])), 'unit': draw(st.sampled_from([None, '', 'B', 'units'])), 'override': draw(st.sampled_from([None, '', 'V', 'm²']))}


@st.composite
def _delta(draw):
    n = draw(st.integers(1, 5))
    names = draw(st.permutations(['second', 'minute', 'Hour', 'day', 'Month', 'year', 'Century']))[:n]
    units = []
    for i in range(n):
        ratio = draw(st.sampled_from([2, 7, 10, 12, 24, 30, 60, 100])) if i < n - 1 else None
        units.append({'name': names[i], 'in_next': ratio, 'custom_short': draw(st.sampled_from([None, None, 'x' * (i + 1)])),
                      'collapsible_after': draw(st.sampled_from([None, 1, 2, 5, 10, 24, 100])) if i else None,
                      'overflow_afer': draw(st.sampled_from([None, 9, 99, 999])) if ratio is None else None})
    scale = 1
    scales = [scale := scale * (u['in_next'] or 1) for u in units] + [1]
    v = draw(st.one_of(st.tuples(st.sampled_from(scales), st.integers(0, 1200), st.sampled_from([-1, -0.5, -0.001, 0, 0.001, 0.5, 1])).map(lambda t: max(0, t[0] * t[1] + t[2])),
                       st.integers(0, 3000).map(lambda k: k / 1000), st.integers(0, 5000), st.integers(0, max(scales) * 120)))
    return {'units': units, 'v': v, 'neg': draw(st.booleans()), 'allow': draw(st.booleans()), 'sep': draw(st.sampled_from([None, '', ' ', '~'])), 'plural': draw(st.sampled_from([None, '', 's', 'es'])),
            'over': draw(st.sampled_from([None, 'ERR', 'TOO LONG TO BE SHOWN AS A TIME']))}


@check('T14', lambda: st.fixed_dictionaries({'p': _prefixed(), 'd': _delta()}), quick=20000, thorough=800000,
       rule='random settings of formatters (prefixes, bases, lengths; time units, ratios, thresholds) x values around their limits; non-trivial: a prefix is shown, and two units are combined or a unit over the first one is shown')
def t14(case, ctx):
    PF, TF, TU = load('pytermor.util.prefixed_unit').PrefixedUnitFormatter, load('pytermor.util.time_delta').TimeDeltaFormatter, load('pytermor.util.time_delta').TimeUnit
    prefixed = check_prefixed(PF, case['p'], ctx)
    units = check_delta(TF, TU, case['d'])
    ctx.nontrivial(prefixed and units > 1)


def check_prefixed(PF, p, ctx):
    f = PF(p['len'], p['trunc'], p['unit'], p['sep'], float(p['base']), list(p['names']), p['zero'])
    v, base = -p['v'] if p['neg'] else p['v'], p['base']
    unit, sep = p['override'] or p['unit'] or '', p['sep'] or ''
    what = lambda: f'{v!r} is formatted by {p} as {got!r}'
    least, most = float(base) ** -p['zero'], float(base) ** (len(p['names']) - p['zero'])
    a = abs(v)
    if not p['trunc']:
        out = a and (a < least * (1 - 1e-12) or a >= most * (1 + 1e-12))
        maybe = a and (a < least * (1 + 1e-12) or a >= most * (1 - 1e-12))
    else:
        out = a and (a < least / base * (1 - 1e-12) or a >= most * (1 + 1e-12))
        maybe = a and (a < least * (1 + 1e-12) or a >= most * (1 - 1e-12))
    try:
        got = f.format(v, p['override']) if p['override'] is not None else f.format(v)
    except ValueError:
        need(maybe, lambda: f'{v!r} is refused by {p}')
        return False
    need(f.max_len == p['len'] + len(sep) + len(p['unit'] or '') + max(len(n) for n in p['names'] if n), lambda: f'{p}: maximum length is {f.max_len}')
    need(len(got) <= f.max_len - len(p['unit'] or '') + len(unit), lambda: f'{what()}: too long')
    marks = '?' * max(len(n) for n in p['names'] if n)
    m = re.fullmatch(r'(-?\d+(?:\.(\d+))?)' + re.escape(sep) + '(.*)', got)
    need(m and m.group(3).endswith(unit), lambda: f'{what()}: malformed')
    name = m.group(3).removesuffix(unit)
    need(name == marks if out else maybe or name != marks, lambda: f'{what()}: wrong prefix')
    if name == marks:
        return False
    need((name or None) in p['names'], lambda: f'{what()}: unknown prefix')
    order = p['names'].index(name or None) - p['zero']
    num, digits = Fraction(m.group(1)), m.group(2) or ''
    true = Fraction(v) / Fraction(base) ** order
    if p['trunc'] and order == 0:
        need(num == int(v) and not digits and m.group(1) == str(int(v)), lambda: f'{what()}: expected {int(v)}')
        need(a == 0 or 1 / base * (1 - 1e-12) <= a <= base * (1 + 1e-12), lambda: f'{what()}: wrong prefix')
        return False
    unit_last = Fraction(1, 10 ** len(digits))
    err, slack = abs(num - true), unit_last / 10 ** 6 + abs(num) / 10 ** 11
    need(err <= unit_last / 2 + slack or (not digits and err < 1 + slack), lambda: f'{what()}: off by {float(err)}')
    # with fractions left out, values are not enlarged until they are below one of the previous unit
    need(v == 0 or 1 - 1e-9 <= abs(true) <= base * (1 + 1e-9) or (p['trunc'] and a < 1 and abs(true) <= base), lambda: f'{what()}: wrong prefix')
    need(v != 0 or (num == 0 and order == 0), lambda: f'{what()}: zero')
    need(v == 0 or p['trunc'] or len(m.group(1)) >= p['len'] - (not digits), lambda: f'{what()}: room is wasted')
    ctx.label('prefix' if order else 'no prefix')
    return order != 0


def check_delta(TF, TU, d):
    f = TF([TU(**u) for u in d['units']], d['allow'], d['sep'], d['plural'], *([d['over']] if d['over'] else []))
    v = -d['v'] if d['neg'] else d['v']
    negative, sep = d['allow'] and v < 0, d['sep'] or ''
    a = Fraction(d['v'])
    # values of the time in every unit, and its parts: seconds within a minute and so on
    level, scale = 0, 1
    for i, u in enumerate(d['units']):
        count = a if i == 0 else Fraction(int(a / scale))
        nxt = u['in_next']
        over = u['overflow_afer'] is not None and count > u['overflow_afer']
        if over or nxt is None or count < nxt or (u['collapsible_after'] and count < u['collapsible_after'] and count >= 1):
            break
        prev, scale = scale, scale * nxt
    plural = lambda n: u['name'] + (d['plural'] or '') * (n != 1)
    short = lambda x: x['custom_short'] or x['name'][0]
    sign = '-' if negative else ''
    if over:
        want = {(d['over'] or 'OVERFLOW')[:f.max_len]}
    elif count < 1:
        want = {'~0' + sep + plural(0)} if negative else {'0' + sep + plural(0)} if a < Fraction(1, 1000) else {'<1' + sep + u['name']}
        if a == Fraction(d['v']) and abs(d['v'] - 0.001) < 1e-9 and not negative:
            want |= {'0' + sep + plural(0)}
    elif u['collapsible_after'] and count < u['collapsible_after']:
        smaller = d['units'][i - 1]
        rest = int(a / prev) % smaller['in_next']
        want = {f'{sign}{int(count)}{short(u)}{sep}{rest}{short(smaller)}'}
    else:
        want = {f'{sign}{int(count)}{sep}{plural(int(count))}'}
    got = f.format(v)
    need(got in want, lambda: f'{v!r} is formatted by {d} as {got!r}, expected {sorted(want)}')
    need((f.format_raw(v) is None) == over and (over or f.format_raw(v) == got), lambda: f'{v!r} in {d}: {f.format_raw(v)!r} without the message')
    padded = f.format(v, always_max_len=True)
    need(padded == ' ' * max(0, f.max_len - len(got)) + got, lambda: f'{v!r} is formatted by {d} as {padded!r}, expected {got!r} at the right of {f.max_len}')
    return i + (count >= 1)


# ------------------------------------------------------------------------------------------------ T13

@check('T13', lambda: st.fixed_dictionaries({'values': st.lists(st.text('abcdé·', min_size=0, max_size=6), max_size=7), 'extra': st.integers(-6, 25), 'before': st.booleans(), 'after': st.booleans(),
                                             'num': st.one_of(st.integers(-10 ** 15, 10 ** 15), st.integers(-2000, 2000), st.integers(-10 ** 30, 10 ** 30), st.floats(-1e9, 1e9).map(lambda f: round(f, 3)), st.floats(-1e9, 1e9), st.floats(-1e16, 1e16)),
                                             'sep': st.sampled_from([' ', ',', '.', '', "'", '__', '\u2009'])}), quick=30000, thorough=1000000,
       rule='random values distributed over random widths and numbers with separators; non-trivial: three or more values with uneven gaps, or a number of more than 3 digits')
def t13(case, ctx):
    dp = load('pytermor.render').distribute_padded
    values = case['values']
    slots = [''] * case['before'] + values + [''] * case['after']
    gaps = len(slots) - 1
    total = sum(map(len, values))
    width = total + case['extra']
    if slots and width >= 0:
        try:
            given = list(values)
            got = dp(given, width, case['before'], case['after'])
            need(given == values and dp(given, width, case['before'], case['after']) == got, lambda: f'list {values} is changed to {given}')
        except ValueError:
            need(width - total < gaps, lambda: f'{slots} do not fit {width}, although there is room')
            got = None
        else:
            need(width - total >= gaps, lambda: f'{slots} are put in {width} without gaps: {got!r}')
            need(len(got) == width, lambda: f'{slots} are put in {width} as {got!r} ({len(got)})')
            check_gaps(got, slots, width - total)
        if got is not None and len(slots) >= 3 and (width - total) % gaps:
            ctx.nontrivial()
    u = load('pytermor.util')
    num, sep = case['num'], case['sep']
    got = u.format_thousand_sep(num, sep)
    sign, digits, rest = re.fullmatch(r'(-?)(\d+)(.*)', repr(num)).groups()
    groups = []
    while digits:
        groups.insert(0, digits[-3:])
        digits = digits[:-3]
    want = sign + sep.join(groups) + rest
    need('e' in rest or got == want, lambda: f'{num!r} with {sep!r} is {got!r}, expected {want!r}')
    need(sep != ' ' or u.format_thousand_sep(num) == got, 'default separator')
    ctx.nontrivial(len(groups) > 2)


def check_gaps(got, slots, spaces):
    """The values in order; the gaps between them share the spaces evenly."""
    words = [s for s in slots]
    pos, sizes = 0, []
    gaps = len(words) - 1
    if gaps == 0:
        need(got.strip(' ') == words[0], lambda: f'{words} is displayed as {got!r}')
        return
    lo, hi = spaces // gaps, -(-spaces // gaps)
    # positions are not unique when values are empty: try both sizes at every gap
    def place(i, pos, left):
        if not got.startswith(words[i], pos):
            return False
        pos += len(words[i])
        if i == gaps:
            return pos == len(got) and left == 0
        return any(got[pos:pos + g] == ' ' * g and place(i + 1, pos + g, left - g) for g in {lo, hi})
    need(place(0, 0, spaces), lambda: f'{words} are displayed as {got!r}: gaps are not {lo}..{hi}')
