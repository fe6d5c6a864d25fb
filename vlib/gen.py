"""Hypothesis strategies: input bytes rich in every character class, and command line options."""
from hypothesis import strategies as st

from . import model as M

# ------------------------------------------------------------------------------------------------ pieces

#: sizes around which an implementation may behave differently
EDGE_SIZES = [10, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]


def size(small, rarely=12, top=257):
    """1..small, or once in a while a size around powers of two and ten."""
    edges = [n for n in EDGE_SIZES if n <= top]
    return st.integers(0, rarely).flatmap(lambda k: st.sampled_from(edges) if k == 7 else st.integers(1, small))


def listed(elements, small, min_size=1, top=257):
    """Lists of up to ``small`` elements, once in a while long ones."""
    long = st.tuples(st.lists(elements, min_size=1, max_size=4), st.sampled_from([n for n in EDGE_SIZES if n <= top])).map(lambda t: (t[0] * t[1])[:t[1]])
    return st.integers(0, 15).flatmap(lambda k: long if k == 7 else st.lists(elements, min_size=min_size, max_size=small))


_u = lambda lo, hi: st.integers(lo, hi).filter(lambda c: not 0xd800 <= c <= 0xdfff)

#: code points at the edges of encoded lengths, ranges and Unicode oddities
EDGE_CPS = [0x80, 0x81, 0x85, 0x9b, 0x9f, 0xa0, 0xad, 0xe9, 0x300, 0x3bf, 0x43f, 0x5d0, 0x600, 0x7c0, 0x7fe, 0x7ff, 0x800, 0x801, 0xe9f,
            0xfff, 0x1000, 0x1fff, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x202e, 0x2060, 0x2588, 0x28b8, 0x3000, 0x4e2d, 0x7fff,
            0xac00, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xefff, 0xf000, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff,
            0x10000, 0x1f600, 0x1ffff, 0x20000, 0x3fffe, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xbffff, 0xc0000, 0xe0001, 0xfffff, 0x100000, 0x10fffd, 0x10ffff]


def codepoint():
    return st.one_of(st.sampled_from(EDGE_CPS), _u(0x80, 0x7ff), _u(0x800, 0xffff), _u(0x10000, 0x10ffff))


def utf8_char():
    return codepoint().map(lambda c: chr(c).encode('utf-8'))


_cont = st.integers(0x80, 0xbf)


@st.composite
def almost_utf8(draw):
    """A lead byte with a chosen number of continuation bytes, valid or not."""
    lead = draw(st.one_of(st.sampled_from([0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xfe, 0xff]),
                          st.integers(0xc0, 0xff)))
    second = st.sampled_from([0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf])
    tail = bytes(draw(st.lists(st.one_of(_cont, second), max_size=5)))
    return bytes([lead]) + tail


def runs_of(alphabet, max_size=8):
    return listed(st.sampled_from(alphabet), max_size).map(bytes)


def repeated(alphabet, max_size=9):
    return st.tuples(st.sampled_from(alphabet), size(max_size)).map(lambda t: bytes([t[0]]) * t[1])


PRINTABLES = list(range(0x21, 0x7f))
CONTROLS = [0, *range(1, 9), *range(0x0e, 0x1b), *range(0x1c, 0x20), 0x7f]
GENERIC_CONTROLS = [*range(1, 8), *range(0x0e, 0x1b), *range(0x1c, 0x20)]
SPACES = [0x20, 0x09, 0x0a, 0x0b, 0x0c, 0x0d]


def sgr_code():
    return st.one_of(st.integers(0, 9), st.integers(30, 49), st.integers(0, 109), st.integers(90, 107),
                     st.sampled_from([21, 22, 38, 48, 50, 53, 54, 55, 58, 59, 255, 256, 1000, 4096]))


@st.composite
def sgr_item(draw):
    k = draw(st.integers(0, 5))
    b = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 15, 16, 17, 231, 232, 255]))
    if k <= 2:
        return [draw(sgr_code())]
    if k == 3:
        return [draw(st.sampled_from([38, 48])), 5, draw(b)]
    if k == 4:
        return [draw(st.sampled_from([38, 48])), 2, draw(b), draw(b), draw(b)]
    return [draw(st.sampled_from([38, 48])), draw(st.sampled_from([5, 2, 0, 3])), *draw(st.lists(b, max_size=3))]  # truncated


@st.composite
def sgr_seq(draw, min_items=0):
    nums = [n for item in draw(listed(sgr_item(), 4, min_items, 40)) for n in item]
    return b'\x1b[' + ';'.join(map(str, nums)).encode() + b'm'


@st.composite
def sgr_weird(draw):
    params = bytes(draw(st.lists(st.sampled_from(list(b'0123456789:;<=>?;;00')), max_size=8)))
    if draw(st.integers(0, 3)) == 3:        # almost a reset, and numbers with leading zeros
        params = draw(st.sampled_from([b'00', b';', b';;', b'0;', b';0', b'0;0', b'000', b'0:0', b'?0', b'01', b'001;031', b'00;1', b'1;00', b'38;05;001', b'0;0;0']))
    inter = bytes(draw(st.lists(st.sampled_from(list(b' !"#/')), max_size=2))) if draw(st.integers(0, 3)) == 3 else b''
    return b'\x1b[' + params + inter + b'm'


@st.composite
def csi_seq(draw):
    params = bytes(draw(listed(st.integers(0x30, 0x3f), 6, 0, 65)))
    inter = bytes(draw(st.lists(st.integers(0x20, 0x2f), max_size=3))) if draw(st.booleans()) else b''
    final = draw(st.integers(0x40, 0x7e).filter(lambda c: c != 0x6d))
    return b'\x1b[' + params + inter + bytes([final])


@st.composite
def nf_seq(draw):
    return b'\x1b' + bytes(draw(listed(st.integers(0x20, 0x2f), 4, 1, 40))) + bytes([draw(st.integers(0x30, 0x7e))])


def two_byte_esc():
    return st.integers(0x30, 0x7e).map(lambda c: b'\x1b' + bytes([c]))


@st.composite
def broken_escape(draw):
    """Beginning of an escape sequence, cut off; what follows decides what it is."""
    head = draw(st.sampled_from([b'\x1b', b'\x1b[', b'\x1b[3', b'\x1b[31;', b'\x1b[?', b'\x1b[1 ', b'\x1b(', b'\x1b #', b'\x1b\x1b']))
    tail = draw(st.sampled_from([b'', b'\x1b', b'\n', b'\x00', b'\x7f', b' ', b'\xd0\xbf', b'\x80', b'\xff', b'A', b'm', b'0', b'\x1b[0m']))
    return head + tail


def words():
    return st.sampled_from([b'hello', b'a', b'The quick brown fox', b'x = 1;', b'0x1f', b'\tkey: value', b'--', b'[31m', b'm', b'8080'])


def lines():
    return st.sampled_from([b'\n', b'\r\n', b'\n\n', b'\n\n\n', b' \n', b'\t\n', b'\x1b[0m\n', b'\x1b[m\n', b'\n\r', b'\x0b\n', b'\x0c\n', b'\x85\n', b'\xc2\x85\n', b'\xe2\x80\xa8\n'])


def any_escape():
    return st.one_of(sgr_seq(), sgr_seq(1), csi_seq(), nf_seq(), two_byte_esc())


def piece():
    return st.one_of(
        runs_of(PRINTABLES), words(), repeated(CONTROLS), runs_of(CONTROLS, 5), repeated(SPACES), runs_of(SPACES, 5), lines(),
        utf8_char(), listed(utf8_char(), 5).map(b''.join), almost_utf8(), runs_of(list(range(0x80, 0x100)), 5),
        sgr_seq(), sgr_seq(1), csi_seq(), nf_seq(), two_byte_esc(), broken_escape(), sgr_weird(), st.binary(min_size=1, max_size=6))


def clean_piece():
    """Only constructs whose reading is not debatable (no unusual "m"-terminated sequences)."""
    return st.one_of(
        runs_of(PRINTABLES), words(), repeated(CONTROLS), runs_of(SPACES, 5), lines(), utf8_char(),
        st.lists(utf8_char(), min_size=1, max_size=5).map(b''.join), almost_utf8(), sgr_seq(), sgr_seq(1), csi_seq(), nf_seq(), two_byte_esc())


def joined(pieces, max_size=10):
    """Pieces one after another; some of them are copies of earlier ones, exact or with one byte changed."""
    some = st.lists(st.tuples(st.integers(0, 15), st.integers(0, 0xffff), pieces), min_size=1, max_size=max_size).map(_join)
    return st.integers(0, 24).flatmap(lambda k: st.just(b'') if k == 24 else some)


def _join(items):
    out = []
    for op, x, p in items:
        if op >= 13 and out:
            p = out[x % len(out)]
            if op >= 14 and p:
                at, b = x // 7 % len(p), x >> 8
                p = p[:at] + [bytes([b]), b'', p[at:at + 1] * 2, bytes([(p[at] + 1) % 256]), bytes([(p[at] - 1) % 256]), bytes([p[at] ^ (1 << b % 8)])][x % 6] + p[at + 1:]
        out.append(p)
    return b''.join(out)


def data(max_pieces=10, extra=None):
    return joined(piece() if extra is None else st.one_of(piece(), extra, extra), max_pieces)


@st.composite
def big_data(draw, around=(4096, 8192), max_pieces=6):
    """Input in which interesting pieces sit near the given absolute positions."""
    target = draw(st.sampled_from(list(around)))
    head = b''.join(draw(st.lists(piece(), max_size=3)))
    filler = draw(st.sampled_from([b'a', b'\x00', b'\xff', b' ', b'a', b'\x00', b'\xff', b' ', b'a' * 50 + b'\n', b'some longer line of text\n' + b'-' * 100 + b'\r\n',
                                   b'\xd0\xbf', b'\x1b[31m', b'\xe4\xb8\xad', b'\xf0\x9f\x98\x80', b'\x1b[m']))
    want = max(0, target - len(head) - draw(st.integers(0, 12)))
    n = want // len(filler)
    pad = b'.' * (want - n * len(filler)) if draw(st.booleans()) else b''
    tail = b''.join(draw(st.lists(piece(), min_size=1, max_size=max_pieces)))
    return head + pad + filler * n + tail


@st.composite
def long_data(draw, top=40000):
    """The same few pieces over and over: many pieces, long lines, many lines."""
    unit = b''.join(draw(st.lists(st.one_of(piece(), st.sampled_from([b'a ', b'\x00', b'\xff\x00', b'a\n', b'\n', b'\x1b[31ma', b'ab c\n', b'\xd0\xbfa'])), min_size=1, max_size=3)))[:200] or b'a '
    n = draw(st.sampled_from([5000, 9000, 17000, 33000, 40000]).map(lambda n: min(n, top)))
    return (unit * (n // len(unit) + 1))[:n] + draw(st.sampled_from([b'', b'\n', b'end', b'\x1b[0m']))


@st.composite
def middle_data(draw, sizes=(300, 600, 1000, 1100, 2100, 3000)):
    """Hundreds of pieces, or runs of hundreds of similar bytes."""
    n = draw(st.sampled_from(sizes))
    if draw(st.booleans()):
        units = draw(st.lists(st.one_of(piece(), lines(), st.sampled_from([b'a', b'\x00', b'\xff', b' ', b'ab', b'\x1b[31m', b'\xd0\xbf'])), min_size=1, max_size=5)) or [b'a']
        out, i = b'', draw(st.integers(0, 4))
        while len(out) < n:
            out += units[i % len(units)] + (b'\n' if i % 7 == 0 else b'')
            i = i * 5 % 64 + 1
        return out
    runs = draw(st.lists(st.one_of(st.sampled_from([b'a', b'\x00', b'\xff', b' ', b'\x01', b'\x7f', b'\x08', b'0123456789']), runs_of(PRINTABLES, 9), runs_of(list(range(0x80, 0xc2)), 5),
                                   runs_of(GENERIC_CONTROLS, 5)), min_size=1, max_size=3))
    return b''.join((r * (n // len(r) + 1))[:draw(st.sampled_from([n, n // 2, 127, 128, 130, 256, 260]))] for r in runs)


@st.composite
def wide(draw):
    """Binary mode options with many columns, and enough data for that."""
    o = draw(opts(True))
    o['columns'] = draw(st.sampled_from([127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 600, 1000, 1023, 1024, 1025, 2000, 4096, 5000]))
    d = draw(middle_data(tuple(int(o['columns'] * x) for x in (1, 1.2, 2, 2.1)) if o['columns'] > 400 else (500, 1000, 2000)))
    return {'o': o, 'data': d}


@st.composite
def mixed_data(draw, max_pieces=10, big=True, around=(4096, 4096, 4096, 8192)):
    k = draw(st.integers(0, 59))
    if k == 59 and big:
        return draw(big_data(around))
    if k == 58 and big:
        return draw(long_data())
    if k == 57 and big:
        return draw(middle_data())
    return draw(data(30 if k >= 30 else max_pieces))


# ------------------------------------------------------------------------------------------------ options

@st.composite
def class_flags(draw, classes=M.CLASSES):
    """(focus, ignore): disjoint lists of character classes."""
    focus, ignore = [], []
    for c in classes:
        k = draw(st.integers(0, 5))
        if k == 1:
            focus.append(c)
        elif k == 2:
            ignore.append(c)
    return focus, ignore


@st.composite
def opts(draw, binary=None):
    """Presentation options as a JSON-able dict."""
    o = {'binary': draw(st.booleans()) if binary is None else binary}
    o['focus'], o['ignore'] = draw(class_flags()) if draw(st.booleans()) else ([], [])
    o['color_markers'] = draw(st.booleans())
    if o['binary']:
        o['decode'] = draw(st.booleans())
        o['columns'] = draw(st.one_of(st.integers(1, 24), st.integers(1, 8), st.sampled_from([16, 31, 32, 33, 64, 100])))
        o['offsets'] = draw(st.sampled_from(['hex', 'hex', 'dec', 'none']))
    else:
        o['marker'] = draw(st.sampled_from([0, 1, 2, 1, 2]))
        o['separators'] = draw(st.booleans())
        o['line_numbers'] = draw(st.sampled_from([True, True, False]))
    return o


def fit(buffer, data, debug=False):
    """A buffer size that needs at most 4000 reads, or 200 when messages about the contents of long queues are printed at each of them."""
    return max(int(buffer), len(data) // (4000 if not debug else 200 if max(map(len, data.split(b'\n'))) > 1000 else 1500))


def argv(o):
    """Command line for opts()."""
    a = ['-b'] if o['binary'] else []
    a += ['-' + M.FLAG[c] for c in o.get('focus', ())]
    a += ['-' + M.FLAG[c].upper() for c in o.get('ignore', ())]
    if o.get('color_markers'):
        a.append('--color-markers')
    if o.get('decode'):
        a.append('-d')
    if o.get('columns') is not None:
        a += ['-w', str(o['columns'])]
    off = o.get('offsets')
    if off == 'dec':
        a.append('--decimal-offsets')
    elif off == 'none':
        a.append('--no-offsets')
    if o.get('marker'):
        a += ['-m', str(o['marker'])]
    if o.get('separators') is False:
        a.append('--no-separators')
    if o.get('line_numbers') is False:
        a.append('--no-line-numbers')
    return a


def model_opts(o):
    return M.Opts(binary=o['binary'], marker=o.get('marker', 0), focus=frozenset(o.get('focus', ())), ignore=frozenset(o.get('ignore', ())),
                  decode=bool(o.get('decode')), separators=o.get('separators', True), color_markers=bool(o.get('color_markers')))
