"""T03, T04: nearest palette colors and color arithmetic."""
import colorsys
import importlib.util
import logging

from hypothesis import strategies as st

from vlib.core import check, Violation
from vlib.lib import load
from vlib.view import need

LEVELS = [0, 95, 135, 175, 215, 255]
PALETTE_256 = {i: (LEVELS[(i - 16) // 36], LEVELS[(i - 16) // 6 % 6], LEVELS[(i - 16) % 6]) for i in range(16, 232)}
PALETTE_256.update({i: (8 + 10 * (i - 232),) * 3 for i in range(232, 256)})
_16 = '000000 800000 008000 808000 000080 800080 008080 c0c0c0 808080 ff0000 00ff00 ffff00 0000ff ff00ff 00ffff ffffff'
PALETTE_16 = {i: tuple(bytes.fromhex(h)) for i, h in enumerate(_16.split())}


def rgb(h):
    return h >> 16, h >> 8 & 255, h & 255


def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def nearest(palette, color):
    """Codes of the palette that are at the minimal distance from the color."""
    best = min(dist(color, p) for p in palette.values())
    return {c for c, p in palette.items() if dist(color, p) == best}


_channel = st.one_of(st.integers(0, 255), st.sampled_from([0, 255, 95, 127, 128, 135, 175, 215, 192, 8, 238, 47, 48, 115, 155, 195, 235]))
hexes = st.one_of(st.tuples(_channel, _channel, _channel).map(lambda t: t[0] << 16 | t[1] << 8 | t[2]),
                  st.integers(0, 255).map(lambda v: v * 0x10101), st.integers(0, 0xffffff))


@st.composite
def _history(draw):
    """Operations around a few points, so that lookups are repeated before and after a nearer color is registered."""
    centers = draw(st.lists(hexes, min_size=1, max_size=3))

    def near():
        r, g, b = rgb(draw(st.sampled_from(centers)))
        d = draw(st.tuples(*[st.integers(-40, 40)] * 3)) if draw(st.booleans()) else (0, 0, 0)
        return min(255, max(0, r + d[0])) << 16 | min(255, max(0, g + d[1])) << 8 | min(255, max(0, b + d[2]))
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(['add', 'add', 'find', 'find', 'find', 'top']))
        ops.append([k, near(), draw(st.integers(1, 5)) if k == 'top' else 0])
    lookups = draw(st.lists(hexes, min_size=1, max_size=4))
    # some of the new colors are close to what is looked up, before and after
    register = []
    if draw(st.integers(0, 3)) == 0:
        for _ in range(draw(st.integers(1, 5))):
            r, g, b = rgb(draw(st.sampled_from(lookups)))
            d = draw(st.tuples(*[st.integers(-12, 12)] * 3))
            register.append(min(255, max(0, r + d[0])) << 16 | min(255, max(0, g + d[1])) << 8 | min(255, max(0, b + d[2])))
    return {'ops': ops, 'lookups': lookups, 'register': register, 'bg': draw(st.booleans())}


def fresh(C):
    """Another instance of the module of colors, whose palettes are its own."""
    spec = importlib.util.spec_from_file_location('pytermor._color_copy', C.__file__)
    module = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(module)
    return module


@check('T03', _history, quick=6000, thorough=300000,
       rule='random histories of registering colors and looking them up around a few points, plus lookups in both standard palettes; non-trivial: a lookup repeated after a registration in between')
def t03(case, ctx):
    C = load('pytermor.color')
    logging.disable(logging.CRITICAL)
    index, known = C.Approximator(), {}
    seen, again = {}, False
    for op, h, n in case['ops']:
        if op == 'add':
            index.add_to_map(C.ColorRGB(h))
            known[h] = rgb(h)
        elif op == 'find':
            again |= h in seen and seen[h] != len(known)
            seen[h] = len(known)
            got = index.find_closest(h).hex_value
            if not known:
                need(got is None, lambda: f'{got} found in an empty palette')
                continue
            best = nearest(known, rgb(h))
            need(got in best, lambda: f'nearest to {h:06x} among {[f"{k:06x}" for k in known]} is {got and f"{got:06x}"}, expected {[f"{k:06x}" for k in best]}')
        elif known:
            got = [c.hex_value for c in index.approximate(h, n)]
            want = sorted(dist(rgb(h), c) for c in known.values())[:n]
            need(n > 1 or got == [c.hex_value for c in index.approximate(h)], lambda: f'one nearest to {h:06x} is {index.approximate(h)}')
            need(len(set(got)) == len(got) and [dist(rgb(h), rgb(g)) for g in got] == want, lambda: f'{n} nearest to {h:06x} are {[f"{g:06x}" for g in got]} at wrong distances, expected {want}')
    for h in case['lookups']:
        for cls, palette, to_code in ((C.ColorIndexed16, PALETTE_16, code16), (C.ColorIndexed256, PALETTE_256, code256)):
            found = cls.find_closest(h)
            need(isinstance(found, cls), lambda: f'{found!r} is not of type {cls.__name__}')
            code = to_code(list(found.to_sgr(bg=case['bg']).params), case['bg'])
            best = nearest(palette, rgb(h))
            need(code in best, lambda: f'{cls.__name__}: nearest to {h:06x} is {found!r} (color {code}), expected one of {sorted(best)}')
        for bg in (False, True):
            params = list(C.ColorRGB(h).to_sgr(bg=bg).params)
            need(params == [48 if bg else 38, 2, *rgb(h)], lambda: f'{h:06x} is {params}')
    if case['register']:
        F, extras, code = fresh(C), {'16': [], '256': []}, 1000
        for new in [None, *case['register']]:
            if new is not None:
                code += 1
                for kind, color in (('16', F.ColorIndexed16(new, 30, 40)), ('256', F.ColorIndexed256(new, code))):
                    need(color.hex_value == new, lambda: f'new color {new:06x} is {color!r}')
                    extras[kind].append(new)
            for h in case['lookups']:
                for cls, kind, palette in ((F.ColorIndexed16, '16', PALETTE_16), (F.ColorIndexed256, '256', PALETTE_256)):
                    found = cls.find_closest(h)
                    known = {*palette.values(), *map(rgb, extras[kind])}
                    need(isinstance(found, cls) and rgb(found.hex_value) in known, lambda: f'{cls.__name__}: nearest to {h:06x} is {found!r}, which is not of the palette')
                    best = min(dist(rgb(h), p) for p in known)
                    need(dist(rgb(h), rgb(found.hex_value)) == best, lambda: f'{cls.__name__}: nearest to {h:06x} is {found!r} after {[f"{e:06x}" for e in extras[kind]]} were added')
        ctx.label('registered')
    for c in (C.NOOP_COLOR, C.NOOP_COLOR_INDEXED, C.ColorRGB(), C.ColorIndexed16(), C.ColorIndexed256()):
        need(str(c.to_sgr(bg=case['bg'])) == '', lambda: f'unset color is rendered as {str(c.to_sgr(bg=case["bg"]))!r}')
    ctx.nontrivial(again)


def code16(params, bg):
    base = 10 if bg else 0
    if len(params) != 1:
        raise Violation(f'16-color parameters are {params}')
    p = params[0] - base
    return p - 30 if 30 <= p <= 37 else p - 82 if 90 <= p <= 97 else None


def code256(params, bg):
    if len(params) != 3 or params[:2] != [48 if bg else 38, 5]:
        raise Violation(f'256-color parameters are {params}')
    return params[2]


_small = st.tuples(st.sampled_from(['RGB', '16', '256']), st.sampled_from([None, 0, 1, 0x800000]), st.sampled_from([30, 31]), st.sampled_from([40, 41])).map(list)


def identity(small):
    """What distinguishes a color from another one."""
    kind, value, fg, bg = small
    return (kind, value) if kind == 'RGB' else (kind, value, fg, bg) if kind == '16' else (kind, value, fg)


def small_color(C, small, cache={}):
    key = identity(small)
    if key not in cache:
        kind, value, fg, bg = small
        cache[key] = C.ColorRGB(value) if kind == 'RGB' else C.ColorIndexed16(value, fg, bg) if kind == '16' else C.ColorIndexed256(value, fg)
    return cache[key]


@check('T04', lambda: st.fixed_dictionaries({'h': hexes, 'near': st.integers(-1, 1), 'small': st.lists(_small, min_size=2, max_size=4), 'bad': st.one_of(st.floats(0, 1e6), st.text(max_size=3), st.none(), st.lists(st.integers(), max_size=3))}), quick=40000, thorough=2000000,
       rule='random colors with channels around palette levels; non-trivial: all channels differ')
def t04(case, ctx):
    C = load('pytermor.color')
    logging.disable(logging.CRITICAL)
    h = case['h']
    r, g, b = rgb(h)
    got = C.Color.hex_value_to_rgb_channels(h)
    need(tuple(got) == (r, g, b), lambda: f'channels of {h:06x} are {got}')
    need(C.Color.rgb_channels_to_hex_value(r, g, b) == h, lambda: f'{(r, g, b)} is converted to {C.Color.rgb_channels_to_hex_value(r, g, b):06x}')
    hue, s, v = C.Color.hex_value_to_hsv_channels(h)
    need(0 <= hue < 360 and 0 <= s <= 1 and 0 <= v <= 1, lambda: f'HSV of {h:06x} is out of range: {(hue, s, v)}')
    wh, ws, wv = colorsys.rgb_to_hsv(r / 255, g / 255, b / 255)
    dh = abs(hue - wh * 360) % 360
    need(min(dh, 360 - dh) < 1e-6 and abs(s - ws) < 1e-9 and abs(v - wv) < 1e-9, lambda: f'HSV of {h:06x} is {(hue, s, v)}, expected {(wh * 360, ws, wv)}')
    back = [round(x * 255) for x in colorsys.hsv_to_rgb(hue / 360, s, v)]
    need(back == [r, g, b], lambda: f'HSV {(hue, s, v)} is {back}, not {[r, g, b]}')
    text = C.ColorRGB(h).format_value('#')
    need(len(text) == 7 and text[0] == '#' and int(text[1:], 16) == h, lambda: f'{h:06x} is displayed as {text!r}')
    need(C.ColorRGB(h).format_value() == f'0x{h:06x}' and C.ColorRGB(h).hex_value == h, lambda: f'{h:06x} is displayed as {C.ColorRGB(h).format_value()!r}')
    for prefix in (None, '', 'x', 'rgb:'):
        need(C.ColorRGB(h).format_value(prefix) == f'{prefix or ""}{h:06x}', lambda: f'{h:06x} is displayed as {C.ColorRGB(h).format_value(prefix)!r} after {prefix!r}')
    for c in (C.ColorRGB(), C.NOOP_COLOR, C.NOOP_COLOR_INDEXED):
        need(c.hex_value is None and (c.format_value(), c.format_value('#'), c.format_value('#', 'none')) == ('~', '~', 'none'), lambda: f'unset color is displayed as {c.format_value()!r}')
    other = min(max(h + case['near'], 0), 0xffffff)
    need((C.ColorRGB(h) == C.ColorRGB(other)) == (h == other), lambda: f'{h:06x} == {other:06x} is {C.ColorRGB(h) == C.ColorRGB(other)}')
    for x in case['small']:
        for y in case['small']:
            res = small_color(C, x) == small_color(C, y)
            need(res == (identity(x) == identity(y)), lambda: f'{x} == {y} is {res}')
    for fn in (C.Color.hex_value_to_rgb_channels, C.Color.hex_value_to_hsv_channels):
        try:
            res = fn(case['bad'])
        except TypeError:
            continue
        raise Violation(f'{case["bad"]!r} is accepted as a color: {res}')
    ctx.nontrivial(len({r, g, b}) == 3)
