"""Structured views of what the application printed, and comparison helpers."""
import re

from . import term, model as M
from .core import Violation
from .term import DEFAULT, sgr

GREEN, CYAN = sgr(32), sgr(36)


def need(cond, fmt, *args):
    if not cond:
        raise Violation(fmt() if callable(fmt) else fmt % args if args else fmt)


def show(cells):
    """Readable form of a cell list."""
    out, last = [], None
    for ch, style in cells:
        if style != last:
            out.append('{' + style_str(style) + '}')
            last = style
        out.append(ch if ch.isprintable() else f'\\u{ord(ch):04x}')
    return ''.join(out)


def style_str(s):
    return ' '.join(f'{k}={v}' for k, v in s._asdict().items() if v) or '-'


class BRow:
    """A row of the binary mode table."""
    __slots__ = ('prefix', 'values', 'hex_cells', 'hex_styles', 'gap', 'sep', 'cells', 'row')


class BView:
    def __init__(self, rows, total, screen):
        self.rows, self.total, self.screen = rows, total, screen

    @property
    def data(self):
        return bytes(v for r in self.rows for v in r.values)

    def stream(self):
        """(value, hex style, char, char style) per byte, over all rows."""
        out = []
        for r in self.rows:
            need(len(r.values) == len(r.cells), lambda: f'row shows {len(r.values)} hex values but {len(r.cells)} characters: {r.row.text!r}')
            out += [(v, h, c, s) for v, h, (c, s) in zip(r.values, r.hex_styles, r.cells)]
        return out


HEX = '0123456789abcdef'
PREFIX_RE = re.compile(r' *[0-9a-zA-Z]+│')


def finish(screen):
    """Drop the blank line the application ends with."""
    rows = list(screen.rows)
    need(rows and not rows[-1] and rows[-1].terminated, lambda: f'output does not end with a blank line: {rows[-2:]!r}')
    return rows[:-1]


def split_prefix(row):
    m = PREFIX_RE.match(row.text)
    need(m, lambda: f'row without an offset/line number column: {row.text!r}')
    return row[:m.end()], row[m.end():]


def hex_row(row, offsets):
    b = BRow()
    b.row = row
    if offsets:
        b.prefix, body = split_prefix(row)
    else:
        b.prefix, body = [], list(row)
    text = ''.join(c for c, _ in body)
    i = 0
    b.values, b.hex_cells, b.hex_styles = [], [], []
    while i + 3 <= len(text) and text[i] == ' ' and text[i + 1] in HEX and text[i + 2] in HEX:
        b.values.append(int(text[i + 1:i + 3], 16))
        styles = {body[i][1], body[i + 1][1], body[i + 2][1]}
        need(len(styles) == 1, lambda: f'one hex value in several styles: {show(body[i:i + 3])}')
        b.hex_styles.append(body[i + 1][1])
        b.hex_cells.append(body[i:i + 3])
        i += 3
    # gap: padding of missing bytes and one space; then the separator
    j = i
    if offsets:
        while j < len(text) and text[j] == ' ':
            j += 1
        need(j < len(text) and text[j] == '│', lambda: f'no separator after the hex values: {row.text!r}')
        b.gap, b.sep, b.cells = body[i:j], body[j], body[j + 1:]
    else:
        b.gap, b.sep, b.cells = body[i:], None, None
    return b


def binary(res, offsets=True, cols=None):
    """View of a binary mode run. Without the offset column the text column starts after as many blanks as the widest row implies."""
    screen = term.parse(res.text)
    rows = finish(screen)
    total = None
    if offsets:
        need(rows, 'no total size row')
        total = rows.pop()
        need(PREFIX_RE.fullmatch(total.text), lambda: f'malformed total size row: {total.text!r}')
    out = [hex_row(r, offsets) for r in rows]
    if not offsets:
        width = cols or max((len(b.values) for b in out), default=0)
        for b in out:
            if len(out) == 1 and not cols:      # width unknown
                n = len(b.values)
                b.gap, b.sep, b.cells = b.gap[:-n - 1], b.gap[-n - 1], b.gap[-n:]
                need(all(c == ' ' for c, _ in b.gap) and b.sep[0] == ' ' and b.gap, lambda: f'misaligned row: {b.row.text!r}')
                continue
            # pad to the width of the table, one space, a blank separator
            gap = 3 * (width - len(b.values)) + 1
            rest = b.gap
            need(len(rest) >= gap + 1 and all(c == ' ' for c, _ in rest[:gap + 1]), lambda: f'misaligned row: {b.row.text!r}')
            b.gap, b.sep, b.cells = rest[:gap], rest[gap], rest[gap + 1:]
    return BView(out, total, screen)


class TRow:
    __slots__ = ('prefix', 'cells', 'row')

    @property
    def text(self):
        return ''.join(c for c, _ in self.cells)


LINE_PREFIX_RE = re.compile(r' *[0-9]+│')


def text(res, numbers=True):
    """Rows of a text mode run."""
    screen = term.parse(res.text)
    out = []
    for row in finish(screen):
        t = TRow()
        t.row = row
        if numbers:
            m = LINE_PREFIX_RE.match(row.text)
            need(m, lambda: f'row without a line number: {row.text!r}')
            t.prefix, t.cells = row[:m.end()], list(row[m.end():])
        else:
            t.prefix, t.cells = [], list(row)
        out.append(t)
    return out


def first_diff(a, b):
    n = min(len(a), len(b))
    for i in range(n):
        if a[i] != b[i]:
            return i
    return n if len(a) != len(b) else None


def same_cells(got, want, what):
    got, want = list(got), list(want)
    if got == want:
        return
    i = first_diff(got, want)
    lo = max(0, i - 3)
    raise Violation(f'{what}: cell {i}: got {show(got[lo:i + 4])} expected {show(want[lo:i + 4])}')


def same_rows(got, want, what):
    for i, (g, w) in enumerate(zip(got, want)):
        same_cells(g, w, f'{what}, row {i + 1}')
    need(len(got) == len(want), lambda: f'{what}: {len(got)} rows, expected {len(want)}')


def chars(cells):
    return [c for c, _ in cells]


def ambiguous(data, o=None):
    """Whether the documentation leaves open how the input is shown (under these options, or under some)."""
    details = o is None or o.get('color_markers') or o.get('marker') == 1
    return any(t.ambiguous and (details or t.ambiguous != 'details') for t in M.tokenize(data))
