"""A small terminal: turns text with SGR sequences into rows of styled cells.

Only SGR (``ESC [ digits ; m``) is interpreted.  Newline ends a row.  Everything else - tabs included - becomes a
cell; other control characters are cells too, so that a caller can see that they were emitted.
"""
import functools
import re
from typing import NamedTuple, Optional, Tuple


class Style(NamedTuple):
    fg: Optional[tuple] = None
    bg: Optional[tuple] = None
    bold: bool = False
    dim: bool = False
    italic: bool = False
    underline: int = 0        # 0, 1 or 2
    blink: int = 0            # 0, 1 (slow) or 2 (fast)
    inverse: bool = False
    hidden: bool = False
    crossed: bool = False
    overlined: bool = False


DEFAULT = Style()


def apply_sgr(style: Style, params, unknown=None) -> Style:
    """Apply SGR parameters (list of ints; empty = reset) to a state."""
    if not params:
        params = [0]
    params = list(params)
    i = 0
    while i < len(params):
        p = params[i]
        i += 1
        if p == 0: style = DEFAULT
        elif p == 1: style = style._replace(bold=True)
        elif p == 2: style = style._replace(dim=True)
        elif p == 3: style = style._replace(italic=True)
        elif p == 4: style = style._replace(underline=1)
        elif p == 5: style = style._replace(blink=1)
        elif p == 6: style = style._replace(blink=2)
        elif p == 7: style = style._replace(inverse=True)
        elif p == 8: style = style._replace(hidden=True)
        elif p == 9: style = style._replace(crossed=True)
        elif p == 21: style = style._replace(underline=2)
        elif p == 22: style = style._replace(bold=False, dim=False)
        elif p == 23: style = style._replace(italic=False)
        elif p == 24: style = style._replace(underline=0)
        elif p == 25: style = style._replace(blink=0)
        elif p == 27: style = style._replace(inverse=False)
        elif p == 28: style = style._replace(hidden=False)
        elif p == 29: style = style._replace(crossed=False)
        elif 30 <= p <= 37: style = style._replace(fg=('16', p - 30))
        elif 40 <= p <= 47: style = style._replace(bg=('16', p - 40))
        elif 90 <= p <= 97: style = style._replace(fg=('16', p - 90 + 8))
        elif 100 <= p <= 107: style = style._replace(bg=('16', p - 100 + 8))
        elif p == 39: style = style._replace(fg=None)
        elif p == 49: style = style._replace(bg=None)
        elif p == 53: style = style._replace(overlined=True)
        elif p == 55: style = style._replace(overlined=False)
        elif p in (38, 48):
            color = None
            if len(params) >= i + 2 and params[i] == 5:
                color = ('256', params[i + 1])
                i += 2
            elif len(params) >= i + 4 and params[i] == 2:
                color = ('rgb',) + tuple(params[i + 1:i + 4])
                i += 4
            if color is not None:
                style = style._replace(**{'fg' if p == 38 else 'bg': color})
            elif unknown is not None:
                unknown.append(p)
        elif unknown is not None:
            unknown.append(p)
    return style


SGR_RE = re.compile('\x1b\\[([0-9;]*)m')


class Row(list):
    """List of (char, Style); ``end_style`` is the state at the line break, ``terminated`` tells if there was one."""
    end_style = DEFAULT
    terminated = False

    @property
    def text(self):
        return ''.join(c for c, _ in self)


class Screen:
    def __init__(self, rows, final_style, sgrs, unknown):
        self.rows, self.final_style, self.sgrs, self.unknown = rows, final_style, sgrs, unknown

    @property
    def lines(self):
        return [r.text for r in self.rows]


@functools.lru_cache(1 << 14)
def _apply(style, codes):
    params = tuple(int(p or 0) for p in codes.split(';')) if codes else ()
    unknown = []
    return apply_sgr(style, params, unknown), params, tuple(unknown)


TOKEN_RE = re.compile('(\\x1b\\[([0-9;]*)m)|([^\\x1b\\n]+)|(\\n)|(\\x1b)')


def parse(text: str, initial: Style = DEFAULT) -> Screen:
    rows, row, style = [], Row(), initial
    sgrs, unknown = [], []
    for m in TOKEN_RE.finditer(text):
        if m.group(1):
            style, params, unk = _apply(style, m.group(2))
            sgrs.append(params)
            unknown.extend(unk)
        elif m.group(4):
            row.end_style, row.terminated = style, True
            rows.append(row)
            row = Row()
        else:
            row.extend([(ch, style) for ch in m.group()])
    if row:
        row.end_style = style
        rows.append(row)
    return Screen(rows, style, sgrs, unknown)


def sgr(*params) -> Style:
    """Style resulting from applying params to the default state."""
    return apply_sgr(DEFAULT, params) if params else DEFAULT


def strip_sgr(text):
    return SGR_RE.sub('', text)
