"""Reference model of kolombos, written from the README, --help and --legend; independent of the implementation.

tokenize(): byte-level scanner (no regular expressions).  cells(): what every token looks like in either mode.
"""
import re
from typing import List, NamedTuple, Tuple

from .term import Style, DEFAULT, sgr, apply_sgr

# ------------------------------------------------------------------------------------------------ tokens

CONTROL, NULL, BACKSPACE, DELETE, ESC = 'control', 'null', 'backspace', 'delete', 'esc'
TAB, NEWLINE, VTAB, FORMFEED, CR, SPACE = 'tab', 'newline', 'vtab', 'formfeed', 'cr', 'space'
PRINTABLE, UTF8, BINARY = 'printable', 'utf8', 'binary'
SGR_RESET, SGR, CSI, NF, FP, FE, FS = 'sgr0', 'sgr', 'csi', 'nF', 'Fp', 'Fe', 'Fs'

ESCAPES = (SGR_RESET, SGR, CSI, NF, FP, FE, FS)

CLASS_OF = {
    CONTROL: 'control', NULL: 'control', BACKSPACE: 'control', DELETE: 'control', ESC: 'control',
    TAB: 'space', NEWLINE: 'space', VTAB: 'space', FORMFEED: 'space', CR: 'space', SPACE: 'space',
    PRINTABLE: 'printable', UTF8: 'utf8', BINARY: 'binary',
    **{k: 'esc' for k in ESCAPES},
}
CLASSES = ('space', 'control', 'printable', 'esc', 'utf8', 'binary')
FLAG = {'space': 's', 'control': 'c', 'printable': 'p', 'esc': 'e', 'utf8': 'u', 'binary': 'i'}
LONG = {'space': 'space', 'control': 'control', 'printable': 'printable', 'esc': 'esc', 'utf8': 'utf8', 'binary': 'binary'}


class Token(NamedTuple):
    kind: str
    raw: bytes
    offset: int
    ambiguous: bool = False     # escape whose exact subtype the documentation leaves open

    @property
    def cls(self):
        return CLASS_OF[self.kind]


def utf8_len(data: bytes, i: int) -> int:
    """Length of the well-formed multibyte UTF-8 sequence starting at i, or 0."""
    for n in (2, 3, 4):
        if i + n > len(data):
            return 0
        try:
            s = data[i:i + n].decode('utf-8', 'strict')
        except UnicodeDecodeError:
            continue
        if len(s) == 1:
            return n
    return 0


_SINGLE = {0x00: NULL, 0x08: BACKSPACE, 0x7f: DELETE, 0x09: TAB, 0x0a: NEWLINE, 0x0b: VTAB, 0x0c: FORMFEED,
           0x0d: CR, 0x20: SPACE}


def escape_at(data: bytes, i: int):
    """(kind, length, ambiguous) of the escape sequence starting at the ESC at i; lone ESC is (ESC, 1, False).
    Ambiguous is "details" when only the way of showing and applying the parameters one by one is left open."""
    n = len(data)
    if i + 1 >= n:
        return ESC, 1, False
    b = data[i + 1]
    if b == 0x5b:                                       # CSI: params 30-3f, intermediates 20-2f, final 40-7e
        j = i + 2
        while j < n and 0x30 <= data[j] <= 0x3f:
            j += 1
        k = j
        while k < n and 0x20 <= data[k] <= 0x2f:
            k += 1
        if k < n and 0x40 <= data[k] <= 0x7e:
            length = k + 1 - i
            if data[k] != 0x6d:
                return CSI, length, False
            params = data[i + 2:j]
            if j != k:                                  # "m" with intermediates: not SGR by ECMA-48
                return SGR, length, True
            if params in (b'', b'0'):
                return SGR_RESET, length, False
            if all(c in b'0123456789;' for c in params):
                nums = params.split(b';')
                if all(len(p) <= 9 for p in nums):
                    zero = all(int(p or b'0') == 0 for p in nums)
                    return SGR, length, True if zero else 'details' if b'' in nums else False
            if re.fullmatch(rb'[0-9]{1,4}(:[0-9]{0,4})*(;[0-9]{1,4}(:[0-9]{0,4})*)*', params) and re.search(b'[1-9]', params):
                return SGR, length, 'details'           # with subparameters
            return SGR, length, True
        return FE, 2, False
    if 0x20 <= b <= 0x2f:                               # nF: intermediates, final 30-7e
        j = i + 2
        while j < n and 0x20 <= data[j] <= 0x2f:
            j += 1
        if j < n and 0x30 <= data[j] <= 0x7e:
            return NF, j + 1 - i, False
        return ESC, 1, False
    if 0x30 <= b <= 0x3f:
        return FP, 2, False
    if 0x40 <= b <= 0x5f:
        return FE, 2, False
    if 0x60 <= b <= 0x7e:
        return FS, 2, False
    return ESC, 1, False


def tokenize(data: bytes) -> List[Token]:
    """One token per single byte, UTF-8 character or escape sequence."""
    out, i, n = [], 0, len(data)
    while i < n:
        b = data[i]
        amb = False
        if b >= 0x80:
            k = utf8_len(data, i)
            kind, length = (UTF8, k) if k else (BINARY, 1)
        elif b == 0x1b:
            kind, length, amb = escape_at(data, i)
        elif b in _SINGLE:
            kind, length = _SINGLE[b], 1
        elif b < 0x20:
            kind, length = CONTROL, 1
        else:
            kind, length = PRINTABLE, 1
        out.append(Token(kind, data[i:i + length], i, amb))
        i += length
    return out


# ------------------------------------------------------------------------------------------------ appearance

SIGIL = {CONTROL: 'Ɐ', NULL: 'Ø', BACKSPACE: '←', DELETE: '→', ESC: '∌',
         TAB: '⇥', NEWLINE: '↵', VTAB: '⤓', FORMFEED: '↡', CR: '⇤', SPACE: '␣',
         SGR_RESET: 'θ', SGR: 'ǝ', CSI: 'Ͻ', NF: 'ꟻ', FP: 'ꟼ', FE: 'Ǝ', FS: 'Ꙅ'}

_WS, _WSF = (96,), (46, 30)
BASE = {CONTROL: (31,), NULL: (91,), BACKSPACE: (31,), DELETE: (31,), ESC: (93,),
        **{k: _WS for k in (TAB, NEWLINE, VTAB, FORMFEED, CR, SPACE)},
        SGR_RESET: (38, 5, 255, 48, 5, 16), SGR: (38, 5, 210, 48, 5, 16), CSI: (92,), NF: (32,),
        FP: (33,), FE: (33,), FS: (33,), UTF8: (94,), BINARY: (35,), PRINTABLE: (38, 5, 102)}
FOCUS = {k: _WSF for k in (TAB, NEWLINE, VTAB, FORMFEED, CR, SPACE)}
FOCUS[PRINTABLE] = (47, 30)
IGNORED_STYLE = sgr(90, 2)
IGNORED = '×'
DETAILS = (48, 5, 16, 4)
SEPARATOR_STYLE = sgr(38, 5, 255)
SEP_L, SEP_R = '⢸', '⡇'
BOX = '▯'
BINARY_TEXT = 'Ḇ'

#: SGR codes that --color-markers applies to the markers
COLORABLE = {2, 3, 53, 9, *range(30, 38), *range(40, 48), *range(90, 98), *range(100, 108)}


class Opts(NamedTuple):
    binary: bool = False
    marker: int = 0
    focus: frozenset = frozenset()
    ignore: frozenset = frozenset()
    decode: bool = False
    separators: bool = True
    color_markers: bool = False


def base_style(kind, opts: Opts) -> Style:
    cls = CLASS_OF[kind]
    if cls in opts.ignore:
        return IGNORED_STYLE
    if cls in opts.focus:
        return sgr(*FOCUS[kind]) if kind in FOCUS else sgr(*BASE[kind], 7)
    return sgr(*BASE[kind])


def sgr_codes(raw: bytes):
    """Parse an unambiguous SGR sequence into a list of items: plain code or ('F'|'B', label, codes)."""
    nums = [int(p) for p in raw[2:-1].split(b';')]
    items, i = [], 0
    while i < len(nums):
        p = nums[i]
        if p in (38, 48):
            t = 'F' if p == 38 else 'B'
            if i + 2 < len(nums) and nums[i + 1] == 5:
                items.append((t, f'{t}{nums[i + 2]}', nums[i:i + 3]))
                i += 3
                continue
            if i + 4 < len(nums) and nums[i + 1] == 2:
                r, g, b = nums[i + 2:i + 5]
                items.append((t, f'{t}{r:02X}{g:02X}{b:02X}', nums[i:i + 5]))
                i += 5
                continue
        items.append((None, str(p), [p]))
        i += 1
    return items


def colored(raw: bytes):
    """Codes that --color-markers applies for this SGR sequence."""
    out = []
    for t, _, codes in sgr_codes(raw):
        if t or codes[0] in COLORABLE:
            out += codes
    return out


def caret(b: int) -> str:
    return chr(b ^ 0x40)


def is_c1(ch: str) -> bool:
    return '\x80' <= ch <= '\x9f'


def token_cells(t: Token, opts: Opts) -> List[Tuple[str, Style]]:
    """Visible cells of a token (newline: cells before the actual line break)."""
    style = base_style(t.kind, opts)
    cls = t.cls
    if cls in opts.ignore:
        return [(IGNORED, style)] * len(t.raw)
    if t.kind == PRINTABLE:
        return [(chr(t.raw[0]), style)]
    if t.kind == UTF8:
        ch = t.raw.decode('utf-8')
        shown = BOX if is_c1(ch) else ch
        if not opts.binary:
            return [(shown, style)]
        if opts.decode:
            return [('_', style)] * (len(t.raw) - 1) + [(shown, style)]
        return [(BOX, style)] * len(t.raw)
    if t.kind == BINARY:
        return [(BOX if opts.binary else BINARY_TEXT, style)]
    if t.kind == TAB:
        return [(SIGIL[TAB], style)] + ([] if opts.binary else [('\t', style)])
    if t.kind == SPACE:
        return [('·' if 'space' in opts.focus else SIGIL[SPACE], style)]
    if t.kind == CONTROL:
        out = [(SIGIL[CONTROL], style)]
        if not opts.binary and opts.marker:
            text = caret(t.raw[0]) if opts.marker == 1 else f'{t.raw[0]:02x}'
            ds = sgr(*BASE[CONTROL], *DETAILS)
            out += [(c, ds) for c in text]
        return out
    if t.kind not in ESCAPES:
        return [(SIGIL[t.kind], style)]

    # escape sequences
    details_style = sgr(*DETAILS) if t.kind == SGR else sgr(*BASE[t.kind], *DETAILS)
    if t.kind == SGR and opts.color_markers:
        codes = colored(t.raw)
        style = sgr(*codes) if codes else DEFAULT
        details_style = sgr(*DETAILS, *codes)
    out = [(SIGIL[t.kind], style)]
    if opts.binary:
        out += [(chr(b), details_style) for b in t.raw[1:]]
        return out
    if opts.marker == 0:
        return out
    if opts.marker >= 2:
        out += [(chr(b), details_style) for b in t.raw[1:]]
    elif t.kind == SGR:
        plain = details_style._replace(underline=0)
        for n, (_, label, _) in enumerate(sgr_codes(t.raw)):
            if n:
                out.append(('･', plain))
            out += [(c, details_style) for c in label]
    if opts.separators:
        out = [(SEP_L, SEPARATOR_STYLE)] + out + [(SEP_R, SEPARATOR_STYLE)]
    return out


def text_lines(data: bytes, opts: Opts) -> List[List[Tuple[str, Style]]]:
    """Expected content (without line numbers) of the text mode output."""
    lines, cur, pending = [], [], False
    for t in tokenize(data):
        pending = True
        cur += token_cells(t, opts)
        if t.kind == NEWLINE:
            lines.append(cur)
            cur, pending = [], False
    if pending:
        lines.append(cur)
    return lines


def byte_cells(data: bytes, opts: Opts):
    """Expected (hex style, char, char style) for every byte in binary mode."""
    out = []
    for t in tokenize(data):
        cells = token_cells(t, opts)
        assert len(cells) == len(t.raw), (t, cells)
        out += cells
    return out
