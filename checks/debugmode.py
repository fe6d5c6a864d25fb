"""C30: what debug mode says about the input, the buffers and the settings is true."""
import os
import re

from hypothesis import strategies as st

from vlib import app, gen, view, model as M, term
from vlib.core import check
from vlib.view import need

LETTER = {'control': 'C', 'esc': 'E', 'space': 'S', 'utf8': 'U', 'binary': 'B', 'printable': 'P'}
CLASS_MEMBER = {'control': 'CONTROL_CHAR', 'esc': 'ESCAPE_SEQ', 'space': 'WHITESPACE', 'utf8': 'UTF_8_SEQ', 'binary': 'BINARY_DATA', 'printable': 'PRINTABLE_CHAR'}
SETTINGS = ['binary', 'buffer', 'color_markers', 'columns', 'debug', 'decimal_offsets', 'demo', 'filename', 'focus_binary', 'focus_control', 'focus_esc', 'focus_printable',
            'focus_space', 'focus_utf8', 'ignore_binary', 'ignore_control', 'ignore_esc', 'ignore_printable', 'ignore_space', 'ignore_utf8', 'legend', 'marker', 'max_bytes',
            'max_lines', 'no_line_numbers', 'no_offsets', 'no_separators', 'text', 'version']
DEFAULTS = {**{n: 'False' for n in SETTINGS}, 'buffer': 'None', 'columns': 'None', 'debug': '0', 'filename': 'None', 'marker': '0', 'max_bytes': 'None', 'max_lines': 'None'}
BACK = 40


@st.composite
def _debugged(draw):
    o = draw(gen.opts())
    if not o['binary'] and draw(st.booleans()):
        o['marker'] = 0
    if o['binary'] and draw(st.integers(0, 3)) == 3:
        o['columns'] = None
    level = draw(st.integers(1, 4))
    d = draw(st.one_of(gen.data(8), gen.data(14), st.lists(st.one_of(gen.data(3), st.just(b'')), max_size=6).map(b'\n'.join)))
    if draw(st.integers(0, 7)) == 7:        # past the default buffer
        d = d + draw(st.sampled_from([b'', b'\n', b'.'])) + draw(gen.data(5)) * draw(st.integers(1, 30))
    d = d[:500]
    buffer = draw(st.one_of(st.none(), st.none(), st.integers(1, 40), st.integers(1, 9), st.integers(100, 600)))
    if draw(st.integers(0, 39)) == 39:
        d = d.replace(b'\n', b'.')[:100]          # few rows: each of them comes with the contents of all buffers
        d = (d + b'.') * draw(st.integers(1, max(1, 2000 // (len(d) + 1))))
        if o['binary'] and o['columns']:
            o['columns'] = 100 + o['columns']
        buffer = draw(st.sampled_from([1000, 2000, 4000, 4096, 5000]))
    nl = d.count(b'\n')
    return {'data': d, 'o': o, 'level': level, 'width': draw(st.sampled_from([40, 80, 80, 100, 133, 80, 300, 1000])),
            'bytes': draw(st.one_of(st.just(0), st.just(0), st.integers(1, len(d) + 3))),
            'lines': draw(st.one_of(st.just(0), st.just(0), st.integers(1, nl + 2))),
            'buffer': buffer,
            'file': draw(st.one_of(st.none(), st.sampled_from(['input.bin', 'a b', '\u00e9', 'x│y', 'len 5', '[None]', '-']), st.text(st.characters(min_codepoint=32, max_codepoint=0x2fff, exclude_characters='/', exclude_categories=['Cc', 'Cs', 'Cn']), min_size=1, max_size=9).filter(
                lambda s: s not in ('.', '..'))))}


def split(res, level):
    """(settings rows, messages): a message is (source, offset or None, text), a source is a name, 'row' or 'out'."""
    settings, messages, bars = [], [], []
    in_table = False
    for row in term.parse(res.text).rows:
        text = row.text
        if not text.strip():
            continue
        if re.fullmatch('─+[┬┼┴]?─*(?:[┬┼┴]─*)?', text):
            bars.append(text)
            if '┬' in text and level >= 3 and not in_table and not settings:
                in_table = True
            elif '┴' in text and in_table:
                in_table = False
            continue
        i = text.find('│')
        if in_table:
            need(i > 0, lambda: f'malformed line in the settings table: {text!r}')
            settings.append((text[:i].strip(), text[i + 1:]))
            continue
        if i < 0:
            messages.append(('out', None, text))
            continue
        prefix, style = text[:i].strip(), row[i - 1][1]
        if style in (view.GREEN, view.CYAN):
            messages.append(('out', None, text))
        elif prefix.isalpha():
            messages.append((prefix, None, text[i + 1:]))
        else:
            need(re.fullmatch('0x[0-9a-f]{4,}|[0-9]+', prefix), lambda: f'malformed prefix {text!r}')
            if re.fullmatch('[0-9]+', prefix) and len(prefix) > 0:
                offset = ('dec', int(prefix))
            else:
                offset = ('hex', int(prefix, 16))
            text = text[i + 1:]
            source = 'message' if text.startswith(('Read chunk #', 'Encountered EOF', 'Match group #', 'Current position', 'Line limit', 'Byte limit', 'Cropping input')) \
                and style != ROW_STYLE else 'row'
            messages.append((source, offset, text))
    return settings, messages, bars


ROW_STYLE = term.sgr(33, BACK)


def safe(raw):
    return ''.join('·' if b in (9, 10, 11, 12, 13, 32) else chr(b) if 0x21 <= b <= 0x7e else '▯' for b in raw)


def hexed(raw):
    return ' '.join(f'{b:02x}' for b in raw)


PREVIEW = r'len (\d+)(?: \[([^\]]*)\])?'


def preview(text, raw, level, what):
    """The first "len N [contents]" of the text describes raw."""
    m = re.search(PREVIEW, text)
    need(m, lambda: f'{what}: no description of the data in {text!r}')
    need(int(m[1]) == len(raw), lambda: f'{what}: length {m[1]}, actually {len(raw)} in {text!r}')
    if level < 3:
        need(m[2] is None, lambda: f'{what}: contents shown at level {level}')
        return
    need(m[2] is not None, lambda: f'{what}: no contents at level {level}: {text!r}')
    full = hexed(raw)
    if level >= 4:
        need(m[2] == full, lambda: f'{what}: contents {m[2]!r}, actually {full!r}')
    elif '..' in m[2]:
        head, tail = m[2].split('..', 1)
        head, tail = head.strip(), tail.strip()
        need(head and tail and full.startswith(head) and full.endswith(tail) and len(head) + len(tail) < len(full), lambda: f'{what}: contents {m[2]!r}, actually {full!r}')
    else:
        need(m[2] == full, lambda: f'{what}: contents {m[2]!r}, actually {full!r}')


def settings_are_true(rows, case, name):
    o, level = case['o'], case['level']
    got = {}
    for attr, value in rows:
        got.setdefault(attr, value)
    want = {'debug': str(level), 'binary': str(o['binary']), 'color_markers': str(bool(o['color_markers']))}
    for c in M.CLASSES:
        want['focus_' + c], want['ignore_' + c] = str(c in o['focus']), str(c in o['ignore'])
    if o['binary']:
        want.update(columns=str(o['columns']), decimal_offsets=str(o['offsets'] == 'dec'), no_offsets=str(o['offsets'] == 'none'))
    else:
        want.update(marker=str(o['marker']), no_separators=str(not o['separators']), no_line_numbers=str(not o['line_numbers']))
    for k in ('bytes', 'lines'):
        want['max_' + k] = str(case[k] or None)
    want['buffer'] = str(case['buffer'])
    want['filename'] = str(name)
    for attr in SETTINGS:
        need(attr in got, lambda: f'setting {attr} is not listed')
        value = want.get(attr, DEFAULTS[attr])
        shown = value if value == DEFAULTS[attr] else f'{value} [{DEFAULTS[attr]}]'
        need(got[attr] == shown, lambda: f'setting {attr} is listed as {got[attr]!r}, actually {shown!r}')
    if level >= 4:
        details = 'BINARY_STRICT' if o['binary'] else ['NO_DETAILS', 'BRIEF_DETAILS', 'FULL_DETAILS'][o['marker']]
        need(details in got.get('effective_marker_details', ''), lambda: f'marker details are listed as {got.get("effective_marker_details")!r}, actually {details}')
        need(('BINARY' if o['binary'] else 'TEXT') in got.get('read_mode', '').split(' [')[0], lambda: f'read mode is listed as {got.get("read_mode")!r}')
        for c in M.CLASSES:
            mode = 'IGNORED' if c in o['ignore'] else 'FOCUSED' if c in o['focus'] else 'DEFAULT'
            shown = got.get('CharClass.' + CLASS_MEMBER[c], '')
            need(mode in shown.split(' [')[0], lambda: f'display mode of {c} is listed as {shown!r}, actually {mode}')
    else:
        need('read_mode' not in got, 'derived settings below level 4')


@check('C30', _debugged, quick=2000, thorough=50000,
       rule='random input x options x debug level x limits x read buffer size, from a file or standard input; non-trivial: at least 3 tokens in at least 2 chunks or lines')
def c30(case, ctx):
    o, data, level = case['o'], case['data'], case['level']
    argv = gen.argv(o) + ['-' + 'D' * level]
    case = dict(case, buffer=gen.fit(case['buffer'], data, True) if case['buffer'] else None)
    for opt, key in (('-f', 'buffer'), ('-B', 'bytes'), ('-L', 'lines')):
        if case[key]:
            argv += [opt, str(case[key])]
    cut = len(data)
    if case['lines']:
        pos = -1
        for _ in range(case['lines']):
            pos = data.find(b'\n', pos + 1)
            if pos < 0:
                break
        else:
            cut = pos
    if case['bytes']:
        cut = min(cut, case['bytes'])
    limited = cut < len(data)

    name = None
    if case['file'] and case['file'] != '-':
        folder = os.path.join(app.scratch(), 'c30')
        os.makedirs(folder, exist_ok=True)
        name = os.path.join(folder, case['file'])
        with open(name, 'wb') as f:
            f.write(data)
        try:
            res = app.ok(argv + [name], b'NOT THIS', columns=case['width'])
        finally:
            os.unlink(name)
    else:
        name = '-' if case['file'] else None
        res = app.ok(argv + ([name] if name else []), data, columns=case['width'])
    is_file = name not in (None, '-')
    shown_name = name and ''.join(c if c.isprintable() else ascii(c)[1:-1] for c in name)

    settings, messages, bars = split(res, level)
    for bar in bars:
        need(len(bar) == case['width'] or case['width'] < 50, lambda: f'a rule of {len(bar)} characters on a terminal of {case["width"]}')
    if level >= 3:
        settings_are_true(settings, case, shown_name)
    else:
        need(not settings, 'settings below level 3')

    # ---- reader
    size = case['buffer'] or 128
    texts = [t for s, _, t in messages if s == 'reader']
    need((f'Opened file: {shown_name}' if is_file else 'Reading from stdin') in texts, lambda: f'the input is not named: {texts}')
    need(not is_file or 'Reading from stdin' not in texts, 'the input file is called standard input')
    if level >= 2:
        need(f'Read buffer: size {size}' in texts, lambda: f'size of the read buffer is {size}, but: {texts}')
    notation = 'dec' if o.get('offsets') == 'dec' else 'hex'
    need(all(off is None or off[0] == notation for _, off, _ in messages), lambda: f'offsets are not in {notation}')

    read, number, eofs, chunk = 0, 0, 0, 0
    parsed = matched = detached = appended = 0
    rows = []
    rebuilt = bytearray()
    classes = []
    for source, off, text in messages:
        if source == 'message':
            if m := re.match(r'Read chunk #(\d+): ', text):
                need(int(m[1]) == number and off[1] == read, lambda: f'chunk {number} at {read} is called {text!r} at {off[1]}')
                number += 1
                chunk = int(re.search(r'len (\d+)', text)[1])
                need(0 < chunk <= size, lambda: f'a chunk of {chunk} bytes, the buffer has {size}')
                preview(text, data[read:read + chunk], level, f'chunk {number - 1}')
                read += chunk
            elif text.startswith('Current position'):
                want = str(read) if is_file else 'n/a'
                need(text == f'Current position: {want}', lambda: f'{text!r} after {read} bytes')
            elif text.startswith('Encountered EOF'):
                eofs += 1
                need(limited and off[1] <= cut or off[1] == cut, lambda: f'end of input at {off[1]}, actually {cut}')
            elif text.startswith('Line limit exceeded'):
                need(text == f'Line limit exceeded: {case["lines"]}', lambda: f'{text!r}')
            elif text.startswith('Byte limit exceeded'):
                need(text == f'Byte limit exceeded: {case["bytes"]}' and read > case['bytes'], lambda: f'{text!r} after {read} bytes')
            elif m := re.match(r'Match group #\d+: Seg <(.?)>: ', text):
                n = int(re.search(r'len (\d+)', text)[1])
                need(off[1] == matched, lambda: f'the match at {matched} is reported at {off[1]}: {text!r}')
                preview(text[m.end():], data[:cut][matched:matched + n], level, f'match at {matched}')
                label = m[1] or re.search('Seg <(.)>', text)[1]        # the first segment can be a separator
                classes += [label] * n
                matched += n
        elif source == 'parser' and text.startswith('Parsing segment'):
            n = int(re.search(r'len (\d+)', text)[1])
            preview(text, data[:cut][parsed:parsed + n], level, f'parsed segment at {parsed}')
            parsed += n
        elif source == 'parsbuf':
            if m := re.fullmatch(r'Appending (\d+) bytes', text):
                appended += int(m[1])
            elif text.startswith('Buffer state') and level >= 3:
                preview(text, data[:cut][parsed:appended], level, f'parser buffer after {appended} bytes')
        elif source == 'chainbuf':
            if m := re.fullmatch(r'Detached (\d+) data byte\(s\)', text):
                detached += int(m[1])
            elif m := re.match(r'Buffer state: len (\d+)\+', text):
                need(int(m[1]) == matched - detached, lambda: f'segment buffer holds {m[1]} bytes, actually {matched - detached}')
        elif source in ('binfmt', 'txtfmt'):
            if m := re.fullmatch(r'Columns amount set to: (\d+)', text):
                columns = int(m[1])
                need(o['columns'] is None, 'columns set twice')
                o = dict(o, columns=columns)
        elif source == 'row':
            rows.append((off[1], text))

    need(eofs == 1, lambda: f'end of input reported {eofs} times')
    if limited:
        need(cut <= read, lambda: f'{read} bytes read, {cut} needed')
    else:
        need(read == len(data), lambda: f'{read} of {len(data)} bytes read')
    need(parsed == cut, lambda: f'{parsed} of {cut} bytes parsed')
    if level >= 2:
        need(matched == cut, lambda: f'{matched} of {cut} bytes matched')
        need(detached == cut, lambda: f'{detached} of {cut} bytes detached')
        want = [LETTER[t.cls] for t in M.tokenize(data[:cut]) for _ in t.raw]
        need(classes == want, lambda: f'classes {"".join(classes)}, expected {"".join(want)}')
    if level >= 3:
        need(appended == cut, lambda: f'{appended} of {cut} bytes appended')

    # ---- formatter
    if o['binary']:
        width = o['columns']
        if width is None:            # known from level 2 up; below, from the first row
            width = max(1, rows[0][1].find('│') // 3) if rows else 1
        parts = [data[:cut][i:i + width] for i in range(0, cut, width)]
    else:
        parts = re.findall(b'[^\n]*\n|[^\n]+', data[:cut])
    it = iter(rows)
    start = 0
    for part in parts:
        line = safe(part)
        pair = ''.join(f' {b:02x}' for b in part)
        if o['binary']:
            want = [(3, line), (1, pair + '   ' * (width - len(part)) + ' │' + line)]
        else:
            want = [(3, line), (2, pair), (1, line)]
        for need_level, expected in want:
            if level < need_level:
                continue
            off, text = next(it, (None, None))
            need(text is not None, lambda: f'no debug row for {part!r} at {start}')
            need(off == start, lambda: f'the debug row of {part!r} is at {start}, not {off}')
            if need_level == 3:
                text = re.sub(r'\[ǝ[0-9;:]*\]', '', text)
            need(text == expected, lambda: f'debug row of {part!r} is {text!r}, expected {expected!r}')
        start += len(part)
    need(next(it, None) is None, lambda: f'extra debug rows: {rows[-3:]}')
    ctx.nontrivial(len(M.tokenize(data[:cut])) >= 3 and (number >= 2 or len(parts) >= 2))
    ctx.label('binary' if o['binary'] else 'text', f'level {level}', *(['limited'] if limited else []))
