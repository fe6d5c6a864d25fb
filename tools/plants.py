"""Bugs to plant: see plant.py."""
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


K = 'kolombos/'
B = K + 'byteio/'
T = B + 'template/'
P = 'pytermor/'

bug('tail-cap', 'C01', [(B + 'parser/buffer.py', "        self._raw_buffer = self._raw_buffer[offset_delta:]\n", "        self._raw_buffer = self._raw_buffer[offset_delta:][:self.MAX_TAIL_LEN]\n"),
                        (B + 'parser/buffer.py', "class ParserBuffer:\n", "class ParserBuffer:\n    MAX_TAIL_LEN = 32  # there are no longer sequences\n\n")],
    'an escape sequence with more than 32 bytes of parameters, cut by a read buffer boundary after the 32nd byte',
    'bytes of the sequence are lost: the kept part of an unfinished sequence is cropped',
    r'''
data = b'a' * 4050 + b'\x1b[' + b'1;2;3;4;' * 8 + b'1mtail'
got = b''.join(bytes.fromhex(re.match(r'(( [0-9a-f]{2})*)', r.split('│')[1]).group(1)) for r in rows('-b', '-w16', stdin=data)[:-1])
assert got == data, (len(got), len(data))
''')

bug('del-after-text', 'C15', [(B + 'parser/parser.py', r"b'([\x21-\x7e]+)',                     # [33]", r"b'([\x21-\x7f]+)',                     # [33]")],
    'a DEL byte right after a printable character (alternatives of the regex are tried in order, so that DEL elsewhere is still a control character)',
    'a raw control character is passed through to the terminal',
    r'''
out = run(stdin=b'ab\x7fc\n').stdout
assert b'\x7f' not in out, out
''')

bug('overlong4', 'C06', [(B + 'parser/parser.py', r"b'\xf0[\x90-\xbf][\x80-\xbf]{2}|'", r"b'\xf0[\x80-\xbf]{3}|'")],
    'an overlong 4-byte form (F0 80..8F xx xx)', 'malformed bytes are recognized as a UTF-8 character instead of binary data',
    r'''
assert rows('--no-line-numbers', stdin=b'\xf0\x82\x82\xac')[0] == 'ḆḆḆḆ'
''')

bug('wide-chars', 'C02', [(T + 'template_utf8.py', "                    decoded = decoded.rjust(len(raw), self.DECODED_LEFT_FILL_CHAR)\n", "                    wide = east_asian_width(decoded) in ('W', 'F')  # takes two columns\n                    decoded = decoded.rjust(len(raw) - wide, self.DECODED_LEFT_FILL_CHAR)\n"),
                          (T + 'template_utf8.py', "import re\n", "import re\nfrom unicodedata import east_asian_width\n")],
    'binary mode with decoding, a double-width character', 'the text column has fewer characters than there are bytes',
    r'''
r = rows('-b', '-d', '-w8', stdin='ab中cd'.encode())
assert len(r[0].split('│')[2]) == 7, r
''')

bug('total-size', 'C03', [(B + 'formatter/binary.py', "            self._offset += data_len\n\n        if self._parser_buffer.closed and", "            self._offset += data_len\n            shown = True\n\n        if shown and self._parser_buffer.closed and"),
                          (B + 'formatter/binary.py', "            req_bytes = min(self._segment_buffer.data_len, cur_cols)\n", "            req_bytes = min(self._segment_buffer.data_len, cur_cols)\n        shown = False  # there is no point in printing the size of an empty file\n")],
    'the size of the input is a multiple of the column amount, so that nothing is left for the final row',
    'the total size is not displayed',
    r'''
assert len(rows('-b', '-w4', stdin=b'12345678')) == 3
assert len(rows('-b', '-w4', stdin=b'123456789')) == 4
''')

bug('csi-intermediate', 'C07', [(B + 'parser/parser.py', r"b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]*)([\x40-\x7e]))|'", r"b'((\x1b)(\\x5b)([\x30-\x3f]*)([\x20-\x2f]?)([\x40-\x7e]))|'")],
    'a CSI sequence with two or more intermediate bytes', 'the sequence is shown as ESC [ of another type followed by plain text',
    r'''
assert rows('--no-line-numbers', stdin=b'\x1b[1!!p')[0] == 'Ͻ', rows('--no-line-numbers', stdin=b'\x1b[1!!p')
''')

bug('sgr-memo', 'C21', [(T + 'template_escape_sgr.py', "        self._details_fmt_str = s.decode('ascii')\n", "        if self._details_fmt_str == s.decode('ascii'):\n            return  # the same as the last one\n        self._details_fmt_str = s.decode('ascii')\n")],
    'the same malformed or private m-terminated sequence twice with no other SGR sequence in between: the second time its parsing is skipped together with the error that makes it a plain CSI',
    'the second occurence is shown as an SGR sequence, with the details of an unrelated one',
    r'''
r = rows('--no-line-numbers', '-m2', stdin=b'\x1b[31m\n\x1b[>4m\n\x1b[>4m\n')
assert r[1] == r[2], r
''')

bug('brief-twice', 'C08', [(T + 'template_escape_sgr.py', ".join(str(bn) for bn in brief_names)", ".join(dict.fromkeys(str(bn) for bn in brief_names))")],
    'brief marker details of a sequence with one code twice, as in "1;31;1"', 'repeated codes are shown once',
    r'''
r = rows('--no-line-numbers', '-m1', stdin=b'\x1b[1;31;1m')
assert '1･31･1' in r[0], r
''')

bug('ignored-order', 'C09', [(T + 'template.py', "        return self._label_stack.get(self._display_mode, self._read_mode)\n", "        return self._label_stack.get(self._read_mode, self._display_mode)\n")],
    'binary mode, ignored UTF-8 or binary data, which have a symbol of their own in this mode', 'ignored bytes are not shown as the filler',
    r'''
r = rows('-b', '-I', '-w4', '--no-offsets', stdin=b'\xff\xfe')
assert r[0].endswith('××'), r
''')

bug('control-focus', 'C10', [(T + 'template_control.py', "            label_processed = self._process_byte(label_raw)\n            self._substituted.append(self._create_primary_segment(\n                self._opening_seq_stack.get(self._display_mode, self._read_mode),", "            label_processed = self._process_byte(label_raw)\n            self._substituted.append(self._create_primary_segment(\n                self._opening_seq_stack.get(self._read_mode),")],
    'focused control characters together with marker details', 'control characters are not highlighted',
    r'''
assert b'\x1b[31;7m' in run('-c', '-m1', stdin=b'\x01').stdout
''')

bug('zero-codes', 'C11', [(T + 'template_escape_sgr.py', "for p in params if p]", "for p in params if p.strip('0')]")],
    'colored markers, an indexed or RGB color with a zero in it', 'zero channels are dropped as if they were resets, so that the marker gets another color',
    r'''
out = run('--color-markers', stdin=b'\x1b[38;2;0;128;0m').stdout
assert b'38;2;0;128;0' in out, out
''')

bug('file-vars', 'C13', [(B + 'reader.py', "            self._io = open(self._filename, 'rb')\n", "            self._io = open(os.path.expandvars(self._filename), 'rb')\n"), (B + 'reader.py', "import abc\n", "import abc\nimport os\n")],
    'a file name with the name of a set environment variable after a dollar sign', 'the file is not found (or another one is shown)',
    r'''
with tempfile.TemporaryDirectory() as d:
    with open(d + '/a$HOME', 'wb') as f:
        f.write(b'x\n')
    os.environ['HOME'] = '/root'
    r = run(d + '/a$HOME')
    assert r.returncode == 0 and '│x' in plain(r.stdout), r
''')

bug('short-read', 'C13', [(B + 'reader.py', "            self._io = sys.stdin.buffer\n", "            self._io = sys.stdin.buffer.raw  # show the data as soon as it is available\n"),
                          (B + 'reader.py', "                chunks += 1\n", "                chunks += 1\n                last = len(raw_input) < self._chunk_size\n"),
                          (B + 'reader.py', "                if (max_bytes and self._offset >= max_bytes) or \\\n", "                if last or (max_bytes and self._offset >= max_bytes) or \\\n")],
    'input from a pipe, which comes in several pieces', 'everything after the first piece is lost: a short read is taken for the end of file',
    r'''
import time
p = subprocess.Popen([sys.executable, '-m', 'kolombos', '--no-line-numbers'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=dict(os.environ, PYTHONUTF8='1', PYTHONPATH=os.getcwd()))
p.stdin.write(b'one\n')
p.stdin.flush()
time.sleep(2)
try:
    p.stdin.write(b'two\n')
    p.stdin.close()
except BrokenPipeError:
    pass
out = plain(p.stdout.read())
assert 'one' in out and 'two' in out, out
''')

bug('line-limit', 'C14', [(B + 'reader.py', "        lines = 0\n        chunks = 0\n", "        chunks = 0\n"), (B + 'reader.py', "                chunks += 1\n", "                chunks += 1\n                lines = 0\n"), (B + 'reader.py', "        max_lines: int|None = SettingsManager.app_settings.max_lines\n", "        max_lines: int|None = SettingsManager.app_settings.max_lines\n        lines = 0\n")],
    'a line limit that is reached after the first read buffer', 'lines are counted anew in each read buffer, so that too many of them are shown',
    r'''
assert len(rows('-L', '200', stdin=b'some longer line of text\n' * 300)) == 200
''')

bug('byte-limit', 'C14', [(B + 'reader.py', "raw_input = raw_input[:max_bytes - self._offset]", "raw_input = raw_input[:max_bytes]")],
    'a byte limit larger than the read buffer', 'the limit is not applied to the bytes of its last buffer',
    r'''
r = rows('-b', '-B', '4096', '-f', '3000', stdin=b'a' * 5000)
assert r[-1].strip(' │') == '0x1000', r[-1]
''')

bug('row-end-reset', 'C16', [(T + 'template_newline.py', "            return f'{default}{Seqs.RESET}\\n'", "            if self._display_mode.is_focused:\n                return f'{default}\\n'\n            return f'{default}{Seqs.RESET}\\n'")],
    'focused whitespace in text mode', 'the background color of the line break marker is still active at the end of the row',
    r'''
out = run('-s', stdin=b'a\n').stdout
assert re.search('\u21b5\x1b\\[(0|49;39|39;49)?m\n'.encode(), out), out
''')

bug('us-brief', 'C17', [(T + 'template_control.py', ", 0x1e: '^', 0x1f: '_',", ", 0x1e: '^',")],
    'a 0x1f byte with brief marker details', 'the application fails with KeyError',
    r'''
r = run('-m1', stdin=b'a\x1fb')
assert r.returncode == 0, r
''')

bug('read-error', 'C18', [(B + 'reader.py', "        except KeyboardInterrupt:\n", "        except (KeyboardInterrupt, OSError):\n")],
    'a read error after the file has been opened', 'the error is not reported, exit code is 0',
    r'''
r = run('/proc/self/mem')
assert r.returncode == 1 and b'OSError' in r.stderr, r
''')

bug('raw-filename', 'C18', [(K + 'console.py', "        else:\n            Console.error(f'{e.__class__.__name__}: {e!s}')\n", "        else:\n            message = f'{e.strerror}: {e.filename}' if isinstance(e, OSError) and e.filename else str(e)\n            Console.error(f'{e.__class__.__name__}: {message}')\n")],
    'a name of a missing file with control characters in it', 'control characters get to the terminal',
    r'''
r = run('/nonexistent/a\x1b[31m\x07')
assert r.returncode == 1 and b'\x07' not in r.stderr and b'\x07' not in r.stdout, r
''')

bug('debug-zero-len', 'C19', [(B + 'segment/buffer.py', "        return tuple(self._format(detached, printer) for printer in printers)", "        if SettingsManager.app_settings.debug_buffer_contents:  # these are not informative\n            detached = [el for el in detached if el.data_len or isinstance(el, SequenceRef)]\n        return tuple(self._format(detached, printer) for printer in printers)")],
    'debug level 3 or higher, brief details or separators', 'details are missing from the regular rows in debug mode',
    r'''
data = b'a\x1b[31mb\x01\n'
want = plain(run('-m1', stdin=data).stdout).split('\n')[0].split('│')[1]
assert want in plain(run('-m1', '-DDD', stdin=data).stdout), want
''')

bug('no-numbers', 'C20', [(K + 'settings.py', "        return not self.no_offsets\n", "        return not (self.no_offsets or self.no_line_numbers)\n")],
    'an option of text mode (--no-line-numbers) in binary mode', 'offsets are not shown',
    r'''
assert rows('-b', '--no-line-numbers', stdin=b'abc') == rows('-b', stdin=b'abc')
''')

bug('demo-auto', 'C22', [(K + 'runner/demo.py', "            if aps.columns is None:\n", "            if not aps.columns:\n")],
    'the demo with an explicit request for automatic column amount (-w 0)', 'the option is ignored',
    r'''
assert rows('--demo', '-w0', columns='120')[0] == rows('-b', '-d', '-w0', 'kolombos/demo.bin', columns='120')[0]
''')

bug('narrow-decode', 'C23', [(T + 'template_utf8.py', "        if self._read_mode.is_text or self._decode:\n", "        fits = not self._columns or len(raw) <= self._columns\n        if self._read_mode.is_text or (self._decode and fits):\n"),
                             (T + 'template_utf8.py', "        super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)\n", "        super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)\n        self._columns = SettingsManager.app_settings.columns\n"),
                             (T + 'template_utf8.py', "from .. import CharClass, OpeningSeqPOV, LabelPOV\n", "from .. import CharClass, OpeningSeqPOV, LabelPOV\nfrom ...settings import SettingsManager\n")],
    'decoding with fewer columns than bytes in a character', 'characters are not decoded',
    r'''
t = lambda w: ''.join(r.split('│')[2] for r in rows('-b', '-d', '-w', w, stdin='a€b'.encode())[:-1])
assert t('2') == t('8'), (t('2'), t('8'))
''')

bug('exact-row', 'C24', [(B + 'segment/buffer.py', "        if self.data_len >= req_bytes or force:\n", "        if self.data_len > req_bytes or force:\n")],
    'exactly as many bytes in the queue as requested', 'a complete row is held back until more data comes (and is lost if reading fails then)',
    r'''
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.byteio import WaitRequest
from kolombos.byteio.segment import SegmentBuffer, Segment, SegmentPrinter
from pytermor import NOOP_SEQ
b = SegmentBuffer()
b.attach(Segment(NOOP_SEQ, 'P', b'abcd', 'abcd'))
try:
    assert b.detach_bytes(4, False, [SegmentPrinter(True, False, lambda s: s.processed)]) == ('abcd',)
except WaitRequest:
    raise AssertionError('complete row is not available')
''')

bug('legend-ff', 'C25', [(T + 'registry.py', "Template(c_ws, op_ws, '↡')", "Template(c_ws, op_ws, '↓')")],
    'a form feed in the input', 'it is shown with a symbol that is not in the legend',
    r'''
symbol = rows('--no-line-numbers', stdin=b'\x0c')[0]
assert symbol in plain(run('--legend').stdout), symbol
''')

bug('rgb-bg-close', 'T01', [(P + 'ansi.py', "        cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 3, IntCodes.BG_COLOR_OFF)", "        cls.bind_complex((IntCodes.BG_COLOR_EXTENDED, 2), 4, IntCodes.BG_COLOR_OFF)")],
    'an RGB background followed by another attribute in the same format', 'the attribute right after the RGB background is not closed',
    r'''
from pytermor import Span
assert Span(48, 2, 1, 2, 3, 1, 31).closing_seq.params == [49, 22, 39], Span(48, 2, 1, 2, 3, 1, 31)
''')

bug('iadd', 'T02', [(P + 'ansi.py', "    def __iadd__(self, other: SequenceSGR) -> SequenceSGR:\n        return self.__add__(other)\n", "    def __iadd__(self, other: SequenceSGR) -> SequenceSGR:\n        self._ensure_sequence(other)\n        self._params += other._params\n        return self\n")],
    'augmented addition to a sequence that is used elsewhere too, e.g. a preset', 'the preset is changed for everyone',
    r'''
from pytermor import Seqs
s = Seqs.RED
s += Seqs.BOLD
assert Seqs.RED.params == [31] and s.params == [31, 1]
''')

bug('stale-colors', 'T03', [(P + 'color.py', "            self._approximation_cache.clear()\n            self._lookup_table[color.hex_value] = color\n", "            self._lookup_table[color.hex_value] = color\n            if color.hex_value in self._approximation_cache:\n                self._approximation_cache.clear()\n")],
    'a lookup of a color, then registration of a closer one, then the same lookup', 'the old result is returned (unless the new color is exactly the one that was looked up)',
    r'''
from pytermor.color import Approximator, Color
class C(Color):
    def to_sgr(self, bg=False): pass
a = Approximator()
x, y = C(0x000000), C(0x101010)
a.add_to_map(x)
assert a.find_closest(0x111111) is x
a.add_to_map(y)
assert a.find_closest(0x111111) is y
''')

bug('hue', 'T04', [(P + 'color.py', "        if h < 0:\n            h += 360\n", "        if h <= -60:\n            h += 360\n")],
    'a color with red the largest channel and more blue than green', 'hue is negative',
    r'''
from pytermor.color import Color
assert Color.hex_value_to_hsv_channels(0xff0080)[0] >= 0
''')

bug('downgrade', 'T05', [(P + 'render.py', "        elif isinstance(color, ColorIndexed256):\n            if cls._compatibility_16_colors:\n", "        elif isinstance(color, ColorIndexed256):\n            if cls._compatibility_16_colors and not cls._compatibility_256_colors:\n")],
    '16-color mode with 256-color compatibility also set, a 256-color style', 'a 256-color sequence is output, which the terminal does not support',
    r'''
from pytermor.render import SgrRenderer, Style
from pytermor.color import Colors
SgrRenderer.set_up(True, compatibility_256_colors=True, compatibility_16_colors=True)
assert '38;5' not in SgrRenderer.render('x', Style(fg=Colors.DEEP_SKY_BLUE_1))
''')

bug('inherit-false', 'T06', [(P + 'render.py', "            if getattr(self, attr) is None and inherit_val is not None:\n", "            if not getattr(self, attr) and inherit_val is not None:\n")],
    'a derived style with an attribute explicitly switched off', 'the attribute is inherited from the parent nevertheless',
    r'''
from pytermor.render import Style
assert Style(Style(bold=True), bold=False).bold is False
''')

bug('prepend', 'T07', [(P + 'render.py', "            self._runs = text._runs + self._runs\n", "            for run in list(text._runs):\n                self._runs.insert(0, run)\n")],
    'prepending a text that has several parts', 'the parts come in the reverse order',
    r'''
from pytermor.render import Text
a, b = Text('1'), Text('3')
a += '2'
b.prepend(a)
assert b.raw() == '123', b.raw()
''')

bug('tmux-rgb', 'T08', [(P + 'render.py', "                    color = '#{:06x}'.format(", "                    color = '#{:x}'.format(")],
    'an RGB color with the red channel below 16', 'the tmux style is malformed (less than six digits)',
    r'''
from pytermor.render import SgrRenderer, TmuxRenderer, Style
SgrRenderer.set_up(True)
TmuxRenderer.set_up(True)
assert '#00ff01' in TmuxRenderer.render('x', Style(fg=0x00ff01))
''')

bug('empty-sgr', 'T09', [(P + 'util/string_filter.py', "(([0-9;])*)(m)')", "(([0-9;])+)(m)')")],
    'a reset sequence in its short form (ESC [ m)', 'it is not removed and is counted in the width when aligning',
    r'''
from pytermor.util import ljust_sgr, ReplaceSGR
assert ReplaceSGR().apply('\x1b[1ma\x1b[m') == 'a'
''')

bug('minus-zero', 'T10', [(P + 'util/auto_float.py', "        # '0' is better than '-'\n        return f'{sign}0'\n", "        # '0' is better than '-' and '-0'\n        return '0'\n")],
    'a negative number with the absolute value below 1 and required length of 2', 'the result is one character shorter than required',
    r'''
from pytermor.util import format_auto_float
assert len(format_auto_float(-0.3, 2)) == 2
''')

bug('prefix-wrap', 'T11', [(P + 'util/prefixed_unit.py', "        while 0 <= unit_idx < len(self._prefixes):\n", "        while unit_idx < len(self._prefixes):\n")],
    'a value below the least prefix (1e-24)', 'the index gets negative and the value is shown with the largest prefixes',
    r'''
from pytermor.util import format_si_metric
assert 'Y' not in format_si_metric(1e-26), format_si_metric(1e-26)
''')

bug('delta-edge', 'T12', [(P + 'util/time_delta.py', "num < unit.collapsible_after:", "num <= unit.collapsible_after:")],
    'a delta with exactly as many units as the threshold for single units, and a two-digit rest', 'the result is longer than allowed',
    r'''
from pytermor.util import format_time_delta
assert len(format_time_delta(10 * 3600 + 59 * 60, 6)) <= 6, format_time_delta(10 * 3600 + 59 * 60, 6)
''')

bug('tight-fit', 'T13', [(P + 'render.py', "    if spaces_amount < gapes_amount:\n", "    if spaces_amount <= gapes_amount:\n")],
    'values that fit with exactly one space between each', 'they are refused',
    r'''
from pytermor.render import distribute_padded
assert distribute_padded(['a', 'b'], 3) == 'a b'
''')

INTERRUPT = r'''
import signal, threading, time


def fed(argv, data, pause=1.5):
    """Output shown while the application waits for more input, which is then interrupted."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS='80', PYTHONPATH=os.getcwd())
    p = subprocess.Popen([sys.executable, '-m', 'kolombos', *argv], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                         preexec_fn=lambda: signal.signal(signal.SIGINT, signal.default_int_handler))
    p.stdin.write(data)
    p.stdin.flush()
    time.sleep(pause)
    p.send_signal(signal.SIGINT)
    out, err = p.stdout.read(), p.stderr.read()
    p.wait()
    return p.returncode, out, err


'''

bug('rows-batched', 'C27', [(B + 'formatter/text.py', "self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num)", "self._output_buffer.write_with_line_num(final_proc_line, line_num=self._line_num, flush=False)"),
                            (B + 'formatter/text.py', "                self._output_buffer.write('', end='\\n')\n", "                self._output_buffer.write('', end='\\n', flush=False)\n"),
                            (B + 'formatter/text.py', "            self._line_num += 1\n", "            self._line_num += 1\n            if self._line_num % 16 == 0:\n                self._output_buffer.flush()\n"),
                            (B + 'formatter/text.py', "            self._debug_buffer.write(1, 'EOF')\n", "            self._debug_buffer.write(1, 'EOF')\n            self._output_buffer.flush()\n")],
    'an interrupt while the application waits for input, text mode, fewer than 16 lines since the last flush', 'complete rows are not shown',
    INTERRUPT + r'''
code, out, err = fed(['-f', '4'], b'one\ntwo\nfour')
assert code == 0 and not err, (code, err)
assert 'two' in plain(out), out
''')

bug('read-ahead', 'C18', [(B + 'reader.py', "        lines = 0\n", "        lines = 0\n        held = None\n"),
                          (B + 'reader.py', "                self._read_callback(raw_input, self._offset, False)\n", "                if held:\n                    self._read_callback(*held, False)\n                held = (raw_input, self._offset)\n"),
                          (B + 'reader.py', "            self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)\n", "            if held:\n                self._read_callback(*held, False)\n            self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)\n")],
    'a read error after at least one complete chunk', 'the rows of the last chunk before the failure are not shown: one chunk is read ahead',
    r'''
import io
from unittest import mock
from kolombos.byteio import reader as R
from kolombos.app import App


class Failing(io.RawIOBase):
    def __init__(self, data):
        self.data = data
    def readable(self):
        return True
    def readinto(self, b):
        if not self.data:
            raise OSError(5, 'Input/output error')
        n = min(len(b), 4, len(self.data))
        b[:n] = self.data[:n]
        self.data = self.data[n:]
        return n


class Stdin:
    buffer = io.BufferedReader(Failing(b'one\ntwo\n'), 4)


out = io.StringIO()
with mock.patch.object(sys, 'stdin', Stdin), mock.patch.object(sys, 'stdout', out), mock.patch.object(sys, 'argv', ['kolombos', '-f', '4']):
    try:
        App().run()
    except SystemExit as e:
        assert e.code == 1, e.code
assert 'one' in out.getvalue() and 'two' in out.getvalue(), out.getvalue()
''')

bug('demo-error', 'C26', [(K + 'runner/demo.py', "            ByteIoRunner().run()\n", "            try:\n                ByteIoRunner().run()\n            except OSError as e:\n                raise RuntimeError(f'Demo file is not readable: {path}') from e\n"),
                          (K + 'console.py', "        Console.print(self._buf, end='')\n        self._buf = ''\n", "        buf, self._buf = self._buf, ''\n        Console.print(buf, end='')\n")],
    'the demo in many rows, with an output which is closed by its reader', 'a misleading error message about the demo file',
    r'''
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS='80', PYTHONPATH=os.getcwd())
r, w = os.pipe()
os.close(r)
p = subprocess.run([sys.executable, '-m', 'kolombos', '--demo', '-w', '1'], stdin=subprocess.DEVNULL, stdout=w, stderr=subprocess.PIPE, env=env)
assert b'emo file' not in p.stderr and b'Traceback' not in p.stderr, p.stderr
''')

bug('assert-parse', 'C28', [(B + 'parser/parser.py', "        unmatched = apply_filters(raw, self.F_SEPARATOR)\n        try:\n            assert len(unmatched) == 0, ", "        try:\n            assert len(unmatched := apply_filters(raw, self.F_SEPARATOR)) == 0, ")],
    'an interpreter started with optimization (-O)', 'nothing is shown: the parsing itself is a part of an assertion, which is left out',
    r'''
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS='80', PYTHONPATH=os.getcwd())
outs = [subprocess.run([sys.executable, *opt, '-m', 'kolombos'], input=b'one\ntwo\n', capture_output=True, env=env).stdout for opt in ([], ['-O'])]
assert outs[0] == outs[1], outs
''')

bug('unordered-modes', 'C28', [(B + 'partial_override.py', "            for key in keys:\n                if key in self._override.keys():\n                    return self._override[key]\n", "            for key in self._override.keys() & set(keys):\n                return self._override[key]\n")],
    'a character for which both the display mode and the read mode have a symbol of their own (an ignored tab in text mode), and a certain hash seed',
    'which of the two symbols is shown depends on the order of elements in a set, i.e. on the run',
    r'''
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS='80', PYTHONPATH=os.getcwd())
outs = {subprocess.run([sys.executable, '-m', 'kolombos', '-S'], input=b'one\ttwo\n', capture_output=True, env=dict(env, PYTHONHASHSEED=str(i))).stdout for i in range(24)}
assert len(outs) == 1, outs
''')

bug('min-unit', 'T14', [(P + 'util/prefixed_unit.py', "        min_value = 1 / self._mcoef if self._truncate_frac else 1.0\n", "        min_value = 1 / 1024 if self._truncate_frac else 1.0\n")],
    'a formatter without fractions whose base is not 1024, and a value below one', 'the value is shown without a prefix, or with a wrong one, as zero',
    r'''
from pytermor.util.prefixed_unit import PrefixedUnitFormatter
f = PrefixedUnitFormatter(max_value_len=4, truncate_frac=True, unit='V', unit_separator=' ', mcoef=10.0, prefixes=['c', 'd', None, 'D', 'h'], prefix_zero_idx=2)
assert f.format(0.05).endswith('cV') or f.format(0.05).endswith('dV'), f.format(0.05)
''')

bug('plural-fraction', 'T14', [(P + 'util/time_delta.py', "            if self._plural_suffix and trunc(num) != 1:\n", "            if self._plural_suffix and num != 1:\n")],
    'a time between one and two of the least units, not a whole number', 'plural form is used for the number of one ("1 secs")',
    r'''
from pytermor.util import format_time_delta
assert format_time_delta(1.5, 10) == '1 sec', format_time_delta(1.5, 10)
''')

bug('gap-rest', 'T13', [(P + 'render.py', "    for value_idx, value in enumerate(values):\n        gape_len = spaces_amount // (gapes_amount or 1)  # for last value\n", "    gape_avg = spaces_amount // (gapes_amount or 1)\n    for value_idx, value in enumerate(values):\n        gape_len = gape_avg if gapes_amount > 1 else spaces_amount  # for last value\n")],
    'four or more values and a width that leaves two or more spaces over', 'the last gap takes all the spaces left over, and differs from the others by more than one',
    r'''
from pytermor.render import distribute_padded
gaps = [len(g) for g in distribute_padded(['a', 'b', 'c', 'd'], 12).replace('a', '').replace('d', '').replace('b', '|').replace('c', '|').split('|')]
assert sum(gaps) == 8 and max(gaps) - min(gaps) <= 1, gaps
''')

bug('prefix-crop', 'C03', [(K + 'console.py', "        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()\n", "        prefix = f(f'{label!s:>{Console.MAIN_PREFIX_LEN}.{Console.MAIN_PREFIX_LEN}s}') + Console.get_separator()\n")],
    'offsets over 999999, which have more digits than the column', 'the offset is truncated',
    r'''
out = rows('-b', '-w', '262144', '-f', '262144', stdin=b'\0' * 1000001)
assert out[-1].split('│')[0] == '0x000f4241', out[-1][:20]
''')

bug('format-again', 'C17', [(B + 'formatter/text.py', "            self._offset += self._segment_buffer.last_detached_data_len\n            self._line_num += 1\n", "            self._offset += self._segment_buffer.last_detached_data_len\n            self._line_num += 1\n            return self.format()  # next line\n")],
    'more than about 950 lines in one read buffer', 'maximum recursion depth is exceeded',
    r'''
r = run(stdin=b'\n' * 3000)
assert r.returncode == 0 and not r.stderr, r.stderr[-200:]
''')

bug('greedy-control', 'C07', [(B + 'parser/parser.py', r"b'([\x01-\x07\x0e-\x1a\x1c-\x1f]+)|'", r"b'([\x01-\x07\x0e-\x1f]+)|'"),
                              (B + 'template/template_control.py', "            0x19: 'Y', 0x1a: 'Z', 0x1c", "            0x19: 'Y', 0x1a: 'Z', 0x1b: '[', 0x1c")],
    'an escape sequence right after a generic control character', 'ESC is taken as one more control character, and the sequence is not recognized',
    r'''
assert rows('--no-line-numbers', stdin=b'\x01\x1b[31ma\n')[0].startswith('Ɐǝ'), rows(stdin=b'\x01\x1b[31ma\n')
''')

bug('dash-name', 'C13', [(B + 'reader.py', "        return not self._filename or self._filename == '-'\n", "        return not self._filename or str(self._filename).startswith('-')\n")],
    'a file whose name starts with a dash (given after "--")', 'standard input is read instead of the file',
    r'''
with tempfile.TemporaryDirectory() as d:
    with open(os.path.join(d, '-name'), 'w') as f:
        f.write('from the file\n')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', COLUMNS='80', PYTHONPATH=os.getcwd())
    p = subprocess.run([sys.executable, '-m', 'kolombos', '--', '-name'], input=b'from stdin\n', capture_output=True, env=env, cwd=d)
    assert 'from␣the␣file' in plain(p.stdout), p.stdout
''')

bug('values-refilled', 'T15', [('dev/es7s_tpl_processor.py', "            StringFilter[str](r'\\^{\\s*([\\w;]*)\\s*}', lambda m: self._resolve_fmt_match(m)),\n            StringFilter[str](r':{\\s*(\\w+)\\s*}', lambda m: self._resolve_var_match(m)),\n",
                                "            StringFilter[str](r':{\\s*(\\w+)\\s*}', lambda m: self._resolve_var_match(m)),\n            StringFilter[str](r'\\^{\\s*([\\w;]*)\\s*}', lambda m: self._resolve_fmt_match(m)),\n")],
    'the value of a variable looks like a format tag', 'values are interpreted as templates',
    r'''
sys.path.insert(0, 'dev')
from es7s_tpl_processor import Es7sTemplateProcessor
assert Es7sTemplateProcessor().substitute(':{a}', {'a': '^{1}'}) == '^{1}'
''')

bug('greedy-comment', 'T15', [('dev/es7s_tpl_processor.py', "            StringFilter[str](r'#{}(.*?){}#', ''),\n", "            StringFilter[str](r'#{}(.*){}#', ''),\n")],
    'two comments on a line', 'the text between them disappears as well',
    r'''
sys.path.insert(0, 'dev')
from es7s_tpl_processor import Es7sTemplateProcessor
assert Es7sTemplateProcessor().substitute('a#{}b{}#c#{}d{}#e') == 'ace'
''')

bug('stale-variables', 'T15', [('dev/es7s_tpl_processor.py', "            self._variables = variables\n", "            self._variables = {**self._variables, **variables}\n")],
    'two templates filled in by the same processor, a variable of the first one is not given for the second', 'the old value is used, without a warning',
    r'''
sys.path.insert(0, 'dev')
from es7s_tpl_processor import Es7sTemplateProcessor
p = Es7sTemplateProcessor()
p.substitute(':{a}', {'a': 'x'})
assert p.substitute(':{a}', {'b': 'y'}) == ':{a}'
''')

bug('key-restore', 'T16', [('pytermor/common.py', "    oldterm = termios.tcgetattr(fd)\n    newattr = termios.tcgetattr(fd)\n", "    newattr = termios.tcgetattr(fd)\n    oldterm = newattr[:]\n")],
    'a terminal set to return other amounts of characters than one, or with a time limit', 'these settings are not restored: they are shared with the changed ones',
    r'''
import pty, termios, threading, time
pid, master = pty.fork()
if pid == 0:
    try:
        from pytermor.common import wait_key
        old = termios.tcgetattr(0)
        old[6][termios.VMIN], old[6][termios.VTIME] = b'\x03', b'\x05'
        termios.tcsetattr(0, termios.TCSANOW, old)
        old = termios.tcgetattr(0)
        wait_key()
        os._exit(0 if termios.tcgetattr(0) == old else 1)
    except BaseException:
        os._exit(2)
time.sleep(1.5)
os.write(master, b'xyz')
_, status = os.waitpid(pid, 0)
assert status == 0, status
''')

bug('legend-backspace', 'C29', [('dev/legend.tpl.ansi', ' :{ex_c_bskpc}:{fmt_comment}<^{}:{fmt_cc}C^{}:{fmt_comment}>^{} backspace        :{fmt_comment} BS  "^{bold}\\b^{}:{fmt_comment}"^{}\n', '')],
    'the legend is generated anew, and the input has a backspace', 'its sigil is missing from the legend',
    r'''
import shutil
with tempfile.TemporaryDirectory() as d:
    for x in ('kolombos', 'pytermor', 'dev'):
        shutil.copytree(x, os.path.join(d, x))
    subprocess.run([sys.executable, 'dev/generate_legend.py'], cwd=d, env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1'), check=True, capture_output=True)
    with open(os.path.join(d, 'kolombos', 'legend.ansi'), encoding='utf-8') as f:
        assert '←' in f.read()
''')

bug('brief-raw', 'C24', [(B + 'template/template_escape.py', "            params_processed = self._get_brief_details_processed()\n", "            params_processed = self._get_brief_details_processed()\n            params_raw = params_raw[:len(params_processed)]\n")],
    'text mode with brief details, an escape sequence other than SGR', 'the bytes of the sequence are lost in the queue',
    r'''
from kolombos.settings import SettingsManager
SettingsManager.init()
from kolombos.byteio.parser import Parser, ParserBuffer
from kolombos.byteio.segment import SegmentBuffer, SegmentPrinter
from kolombos.byteio.template import TemplateRegistry
SettingsManager.app_settings.text, SettingsManager.app_settings.marker = True, 1
raw, queue = ParserBuffer(), SegmentBuffer()
parser = Parser(raw, queue, TemplateRegistry())
raw.append_raw(b'a\x1b[24dbc', True)
parser.parse(0)
got, = queue.detach_line(True, [SegmentPrinter(apply_sgr=False, encode_sgr=False, format_fn=lambda s: s.raw.hex())])
assert got == b'a\x1b[24dbc'.hex(), got
''')

bug('ff-merge', 'C05', [(B + 'template/template.py', "        return ''.join(self._process_byte(b) for b in raw)\n", "        return ''.join(self._process_byte(b) for b in raw) if len(raw) < 64 else self._process_byte(raw[0]) * len(raw)\n")],
    'a run of 64 or more printable characters of which not all are the same', 'all of them are shown as the first one',
    r'''
s = '0123456789' * 8
assert rows('--no-line-numbers', stdin=s.encode())[0] == s
''')

bug('preview-short', 'C30', [(B + 'segment/buffer.py', "            if idx >= max_input_len:\n                max_input_exceeded = True\n", "            if idx >= max_input_len:\n                max_input_exceeded = True\n                if idx >= 256:  # the size of the rest does not matter that much\n                    break\n")],
    'debug mode of level 2 or more, and more than 60 pieces of data waiting in the queue', 'the reported size of the queue is less than it is',
    r'''
data = b'a ' * 200 + b'\n'
text = plain(run('-DD', '-f', '1000', stdin=data).stdout)
assert 'Buffer state: len 401+' in text, re.findall('Buffer state: len .*', text)
''')

bug('safe-decode', 'C30', [(B + 'formatter/_abstract.py', 'for c in seg.raw.decode("ascii", errors="replace"):', 'for c in seg.raw.decode(errors="replace"):')],
    'debug mode and a multi-byte character', 'the debug row has one box per character and no longer one per byte',
    r'''
text = plain(run('-D', stdin='a\u20acb'.encode()).stdout)
assert any(r.endswith('│a▯▯▯b') for r in text.split('\n')), text
''')

bug('full-cap', 'C30', [(K + 'console.py', "            max_input_len = sys.maxsize\n", "            max_input_len = 1024\n"), (K + 'console.py', "import re\nimport sys\n", "import re\nimport sys  # stderr\n")],
    'debug mode of level 4 and more than 682 bytes in a buffer', 'the contents of buffers are not shown in full',
    r'''
text = plain(run('-DDDD', '-f', '1000', stdin=b'x' * 800 + b'y' * 100).stdout)
assert 'len 900 [' + '78 ' * 800 + '79 ' * 99 + '79]' in text
''')

# -- second wave ----------------------------------------------------------------------------------------------

bug('line-digits', 'C04', [(K + 'console.py', "            prefix = fmt_(f'{line_num:2d}') + Console.get_separator()", "            prefix = fmt_(f'{line_num:2d}'[:4]) + Console.get_separator()")],
    'more than 9999 lines', 'the number of a line is cropped',
    r'''
assert rows(stdin=b'\n' * 10001)[9999].startswith('10000│')
''')

bug('col-cap', 'C02', [(B + 'formatter/binary.py', "        req_bytes = cur_cols\n", "        req_bytes = cur_cols = min(cur_cols, 512)\n")],
    'a row width above 512', 'rows are shorter than requested',
    r'''
assert len(rows('-b', '-w600', '--no-offsets', stdin=b'x' * 1200)) == 2
''')

bug('label-order', 'C09', [(T + 'template.py', "        return self._label_stack.get(self._display_mode, self._read_mode)", "        return self._label_stack.get(self._read_mode, self._display_mode)")],
    'ignored binary data or UTF-8 in binary mode, ignored tabs in text mode', 'the usual label is shown instead of the filler',
    r'''
assert rows('-b', '-I', '-w4', '--no-offsets', stdin=b'\xff\xffab')[0].endswith('××ab')
''')

bug('bom', 'C06', [(T + 'template_utf8.py', "            decoded = raw.decode('utf8', errors='replace')\n", "            decoded = raw.decode('utf-8-sig', errors='replace')\n")],
    'U+FEFF in the input', 'the character is not shown',
    r'''
assert '\ufeff' in rows(stdin='a\ufeffb'.encode())[0]
''')

bug('nf-two', 'C07', [(B + 'parser/parser.py', r"b'((\x1b)([\x20-\x2f])([\x20-\x2f]*)([\x30-\x7e]))|' ", r"b'((\x1b)([\x20-\x2f])([\x20-\x2f]?)([\x30-\x7e]))|' ")],
    'an nF sequence with three or more intermediate bytes', 'it is shown as a lone ESC followed by text',
    r'''
assert 'ꟻ' in rows(stdin=b'\x1b$%(Btext')[0]
''')

bug('brief-caret', 'C08', [(T + 'template_control.py', r"0x1d: ']', 0x1e: '^', 0x1f: '_',", r"0x1d: ']', 0x1e: '~', 0x1f: '_',")],
    'brief details and the byte 0x1e', 'the detail of the marker is wrong',
    r'''
assert rows('-m1', '--no-line-numbers', stdin=b'\x1e')[0] == 'Ɐ^'
''')

bug('focus-decode', 'C10', [(T + 'template_utf8.py', "        if self._read_mode.is_text or self._decode:\n", "        if self._read_mode.is_text or (self._decode and self._display_mode.is_default):\n")],
    'binary mode, decoding, and focus on UTF-8 sequences', 'the sequences are not decoded',
    r'''
a, b = (rows('-b', '-d', '-w8', *x, stdin='\u20ac1\u20ac2'.encode()) for x in ([], ['-u']))
assert a == b, (a, b)
''')

bug('repeated-codes', 'C11', [(T + 'template_escape_sgr.py', "            elif pcode in self.ALLOWED_SGRS_FOR_MARKER_FORMAT:\n", "            elif pcode in self.ALLOWED_SGRS_FOR_MARKER_FORMAT and pcode not in pcodes_allowed:\n")],
    'a sequence with the same color twice and another one between them', 'the marker has another color than the text would have',
    r'''
out = run('--color-markers', '--no-line-numbers', stdin=b'\x1b[31;32;31mtext').stdout.decode()
assert re.match('\x1b\\[31(;32;31)?mǝ', out), ascii(out)
''')

bug('vt-raw', 'C15', [(T + 'registry.py', "        self.WHITESPACE_VERT_TAB = Template(c_ws, op_ws, '⤓') ", "        self.WHITESPACE_VERT_TAB = Template(c_ws, op_ws, LabelPOV('⤓', {ReadMode.TEXT: '⤓\\v'})) ")],
    'a vertical tab in text mode', 'it is sent to the terminal',
    r'''
assert b'\v' not in run(stdin=b'a\vb').stdout
''')

bug('zero-open', 'C16', [(B + 'segment/buffer.py', "            self._segment_chain.extend([\n                StartSequenceRef(f.opening_seq),\n                segment,\n                StopSequenceRef(f.opening_seq),\n                OneUseSequenceRef(f.closing_seq)\n            ])\n",
     "            self._segment_chain.extend([\n                StartSequenceRef(f.opening_seq),\n                segment,\n                StopSequenceRef(f.opening_seq),\n            ])\n            if segment.processed != '\\\\':  # must not be followed by ESC\n                self._segment_chain.append(OneUseSequenceRef(f.closing_seq))\n")],
    'the byte 0x1c with brief details, or a lone backslash', 'its style is not closed',
    r'''
out = run('-m1', '--no-line-numbers', stdin=b'\x1c').stdout.decode()
assert '\\\x1b[39;49;24m' in out, ascii(out)
''')

bug('bg-hi-white', 'T01', [(P + 'ansi.py', "    LIST_BG_HI_COLORS = list(range(100, 108))\n", "    LIST_BG_HI_COLORS = list(range(100, 107))\n")],
    'bright white background', 'it is not closed',
    r'''
from pytermor import Span
assert Span('bg_hi_white').closing_seq.params == [49]
''')

bug('alias-params', 'T02', [(P + 'ansi.py', "                result.extend(arg.params)\n", "                if not result:\n                    result = arg.params  # nothing to preserve\n                else:\n                    result.extend(arg.params)\n")],
    'a sequence as an argument that is followed by another argument', 'the former is changed',
    r'''
from pytermor import SequenceSGR
a = SequenceSGR(31)
SequenceSGR(a, 'bold')
assert a.params == [31]
''')

bug('stale-cache', 'T03', [(P + 'color.py', "            self._approximation_cache.clear()\n", "            self._approximation_cache.pop(color.hex_value, None)\n")],
    'a color is registered between two searches for the same value', 'the second search does not find it',
    r'''
from pytermor.color import ColorIndexed16
ColorIndexed16.find_closest(0x123456)
c = ColorIndexed16(0x123457, 130, 140)
assert ColorIndexed16.find_closest(0x123456) == c
''')

bug('dark-saturation', 'T04', [(P + 'color.py', "        if v == 0:\n            s = 0\n", "        if v < 0.01:\n            s = 0\n")],
    'a color with no channel above 2', 'its saturation is zero',
    r'''
from pytermor.color import Color
assert Color.hex_value_to_hsv_channels(0x020000)[1] == 1
''')

bug('black', 'T05', [(P + 'render.py', "        if not cls.is_sgr_usage_allowed() or hex_value is None:\n", "        if not cls.is_sgr_usage_allowed() or not hex_value:\n")],
    'a black color', 'it is not applied',
    r'''
from pytermor import SgrRenderer, Style
SgrRenderer.set_up(force_styles=True)
assert '30' in SgrRenderer.render('text', Style(fg='black'))
''')

bug('inherit-class', 'T06', [(P + 'render.py', "        self.underlined = underlined\n        self.class_name = class_name\n\n        if inherit is not None:\n            self._clone_from(inherit)\n", "        self.underlined = underlined\n\n        if inherit is not None:\n            self._clone_from(inherit)\n        self.class_name = class_name\n")],
    'the parent has a class name', 'it is not inherited',
    r'''
from pytermor import Style
assert Style(Style(class_name='x'), bold=True).class_name == 'x'
''')

bug('shared-runs', 'T07', [(P + 'render.py', "            self._runs += text._runs\n", "            if len(self):\n                self._runs += text._runs\n            else:\n                self._runs = text._runs\n")],
    'a text is appended to an empty one, which is continued afterwards', 'the former is changed as well',
    r'''
from pytermor import Text
a, b = Text(), Text('b')
a += b
a += 'c'
assert b.raw() == 'b'
''')

bug('html-inversed', 'T08', [(P + 'render.py', "        if style.inversed:\n            span_styles['color'], ", "        if style.inversed and span_styles['background-color']:\n            span_styles['color'], ")],
    'an inversed style with a text color and no background', 'colors are not swapped',
    r'''
from pytermor.render import HtmlRenderer, Style
assert 'background-color: #800000' in HtmlRenderer.render('text', Style(fg='red', inversed=True))
''')

bug('nbsp', 'T09', [(P + 'util/string_filter.py', r"        super().__init__(r'(\n)|\s', repl + '\\1')", r"        super().__init__(r'(\n)|[ \t\r\f\v]', repl + '\\1')")],
    'a whitespace character beyond ASCII', 'it stays as is',
    r'''
from pytermor.util import VisualuzeWhitespace
assert VisualuzeWhitespace().apply('a\u3000b') == 'a·b'
''')

bug('one-zero', 'T10', [(P + 'util/auto_float.py', "    if abs_value < 1 and req_len == 1:\n", "    if abs_value <= 1 and req_len == 1:\n")],
    'the value of 1 (or -1) and no place for another character', 'zero is shown',
    r'''
from pytermor.util import format_auto_float
assert format_auto_float(1, 1) == '1'
''')

bug('exact-kilo', 'T11', [(P + 'util/prefixed_unit.py', "            elif abs(value) >= self._mcoef:\n", "            elif abs(value) > self._mcoef:\n")],
    'the value is exactly a multiple of the next prefix', 'the lesser prefix is used',
    r'''
from pytermor.util import format_si_metric
assert format_si_metric(1000) == '1.00 km', format_si_metric(1000)
''')

bug('collapse-edge', 'T12', [(P + 'util/time_delta.py', "num < unit.collapsible_after:", "num <= unit.collapsible_after:")],
    'exactly as many units as the threshold of a double delta', 'the result is longer than allowed',
    r'''
from pytermor.util import format_time_delta
assert len(format_time_delta(10 * 3600 + 59 * 60, 6)) <= 6
''')

bug('no-echo', 'T16', [(P + 'common.py', "        termios.tcsetattr(fd, termios.TCSAFLUSH, oldterm)\n", "        oldterm[3] |= termios.ECHO\n        termios.tcsetattr(fd, termios.TCSAFLUSH, oldterm)\n")],
    'the echo of the terminal was off', 'it is on afterwards',
    r'''
import pty, termios
m, s = pty.openpty()
attr = termios.tcgetattr(s)
attr[3] &= ~termios.ECHO
termios.tcsetattr(s, termios.TCSANOW, attr)
p = subprocess.Popen([sys.executable, '-c', 'from pytermor.common import wait_key; wait_key()'], stdin=s)
import time
time.sleep(1)
os.write(m, b'x')
p.wait(20)
assert not termios.tcgetattr(s)[3] & termios.ECHO
''')

bug('seed-order', 'C28', [(T + 'template_escape_sgr.py', ".join(str(bn) for bn in brief_names)", ".join({str(bn): 1 for bn in brief_names} if len(brief_names) < 4 else {str(bn) for bn in brief_names})")],
    'brief details of a sequence with four or more codes', 'the order of codes is not the same in every run',
    r'''
outs = set()
for seed in range(8):
    os.environ['PYTHONHASHSEED'] = str(seed)
    outs.add(run('-m1', stdin=b'\x1b[1;3;4;7;31;42;53;9mtext').stdout)
assert len(outs) == 1
''')

bug('quiet-debug', 'C19', [(K + 'settings.py', "        if self.marker <= 0:\n            return MarkerDetailsEnum.NO_DETAILS\n", "        if self.marker <= 0 and not self.debug_settings_derived:\n            return MarkerDetailsEnum.NO_DETAILS\n")],
    'debug mode of level 4 and no marker details requested', 'full details are shown',
    r'''
assert 'aǝb' in plain(run('-DDDD', '-m0', stdin=b'a\x1b[31mb').stdout)
''')

bug('carried-color', 'C21', [(T + 'template_escape_sgr.py', "        pcodes_allowed = []\n        brief_names = []\n", "        pcodes_allowed = []\n        if pcodes and pcodes[0] == IntCodes.DIM and self._details_opening_seq is not None:\n            pcodes_allowed.extend(self._details_opening_seq.params)  # an attribute keeps the color\n        brief_names = []\n")],
    'colored markers, a sequence starting with the code 2 on a line after another one', 'the latter has the color of the former',
    r'''
data = b'\x1b[2mtext\n'
alone, after = (run('--color-markers', '--no-line-numbers', stdin=x + data).stdout for x in (b'', b'\x1b[31mtext\n'))
assert after.endswith(alone)
''')

bug('wide-hex', 'C23', [(B + 'formatter/_abstract.py', "        return ''.join([f' {b:02x}' for b in seg.raw])", "        return ''.join([f' {b:02x}' for b in seg.raw]) if len(seg.raw) < 128 else ' ' + seg.raw.hex(' ', 2)")],
    'a run of 128 or more similar bytes in one row', 'their codes are joined by two',
    r'''
assert ' 78 78 78' in rows('-b', '-w200', stdin=b'x' * 200)[0]
''')

bug('late-limit', 'C14', [(B + 'reader.py', "                if max_lines:\n                    for line_break", "                if max_lines and max_lines <= 1 << 10:  # does not matter for bigger ones\n                    for line_break")],
    'a line limit above 1024', 'it is not applied',
    r'''
assert len(rows('-L', '1100', stdin=b'x\n' * 1200)) == 1100
''')

bug('max-size', 'C03', [(B + 'formatter/binary.py', "            self._offset += data_len\n", "            self._offset = (self._offset + data_len) & 0xFFFFF\n")],
    'more than a megabyte of data', 'offsets start from zero again',
    r'''
r = rows('-b', '-w4096', stdin=b'x' * (1 << 20 | 4096))
assert r[-1].startswith('0x00101000'), r[-1]
''')

bug('tell-late', 'C17', [(B + 'reader.py', "                chunks += 1\n", "                chunks += 1\n                if chunks > 500 and not self._io.seekable():\n                    raise OverflowError('Too many chunks')\n")],
    'more than 500 chunks from a pipe', 'the rest is not processed',
    r'''
assert run('-f', '4', stdin=b'abc\n' * 600).returncode == 0
''')
bug('exists-first', 'C18', [(B + 'reader.py', "            self._io = open(self._filename, 'rb')\n", "            if not os.path.exists(self._filename):\n                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), str(self._filename))\n            self._io = open(self._filename, 'rb')\n"),
                            (B + 'reader.py', "import abc\n", "import abc\nimport errno\nimport os\n")],
    'a file that cannot be opened for another reason than that it does not exist: a loop of symbolic links, a file in place of a directory',
    'the kind of the error is wrong',
    r'''
d = tempfile.mkdtemp()
try:
    os.symlink('loop', d + '/loop')
    with open(d + '/file', 'wb'):
        pass
    res = [run(d + '/loop'), run(d + '/file/x')]
finally:
    os.path.lexists(d + '/loop') and os.unlink(d + '/loop')
    os.unlink(d + '/file')
    os.rmdir(d)
assert 'symbolic links' in res[0].stderr.decode(), res[0]
assert 'NotADirectoryError' in res[1].stderr.decode(), res[1]
''')

bug('fromfile', 'C13', [(K + 'arghelp.py', "            prog='kolombos'\n", "            prog='kolombos',\n            fromfile_prefix_chars='@',\n")],
    'a file name that begins with "@"', 'the file is taken for a list of arguments',
    r'''
d = tempfile.mkdtemp()
home = os.getcwd()
try:
    with open(d + '/@x', 'wb') as f:
        f.write(b'--binary')
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, sys.argv.pop(1)); from kolombos.__main__ import main; main()', home, '@x'],
                       input=b'', capture_output=True, cwd=d)
finally:
    os.unlink(d + '/@x')
    os.rmdir(d)
assert '--binary' in plain(p.stdout), p
''')

bug('double-dash', 'C20', [(K + 'app.py', "        AppArgumentParser().parse_args(namespace=SettingsManager.app_settings)\n",
                            "        argv = [arg for arg in sys.argv[1:] if arg not in ('', '--')]  # empty ones come from unset shell variables\n        AppArgumentParser().parse_args(argv, namespace=SettingsManager.app_settings)\n")],
    'the file name comes after "--" and begins with a dash', 'the file name is taken for an option',
    r'''
d = tempfile.mkdtemp()
home = os.getcwd()
try:
    with open(d + '/-b', 'wb') as f:
        f.write(b'some text')
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, sys.argv.pop(1)); from kolombos.__main__ import main; main()', home, '--', '-b'],
                       input=b'', capture_output=True, cwd=d)
finally:
    os.unlink(d + '/-b')
    os.rmdir(d)
assert 'some␣text' in plain(p.stdout), p
''')

bug('legend-width', 'C22', [(K + 'runner/legend.py', "            Console.info(line, end='')\n", "            if get_terminal_width(exact=True) < 60 and set(ReplaceSGR().apply(line).strip()) <= {'─', '━'}:\n                line = '\\n'  # rules would be wrapped\n            Console.info(line, end='')\n"),
                            (K + 'runner/legend.py', "from . import AbstractRunner\n", "from pytermor.util import ReplaceSGR\n\nfrom . import AbstractRunner\nfrom ..common import get_terminal_width\n")],
    'a terminal narrower than 60 columns', 'some lines of the legend are not printed',
    r'''
assert run('--legend', columns='30').stdout == run('--legend', columns='100').stdout
''')

bug('epipe-ignored', 'C26', [(K + 'console.py', "        print(s, end=end, **kwargs)\n", "        try:\n            print(s, end=end, **kwargs)\n        except BrokenPipeError:\n            pass  # nobody reads it anymore\n")],
    'the reader goes away while the input goes on without an end', 'the application reads on forever',
    r'''
r, w = os.pipe()
src = subprocess.Popen(['yes', 'line'], stdout=w, stderr=subprocess.DEVNULL)
os.close(w)
p = subprocess.Popen([sys.executable, '-m', 'kolombos'], stdin=r, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1'))
os.close(r)
try:
    p.stdout.read(100)
    p.stdout.close()
    p.wait(30)
    assert not p.stderr.read()
finally:
    for x in (src, p):
        if x.poll() is None:
            x.kill()
        x.wait()
''')

bug('flush-on-interrupt', 'C27', [(B + 'reader.py', "        except KeyboardInterrupt:\n            pass\n", "        except KeyboardInterrupt:\n            self._read_callback(b'', self._offset, True)  # show what is already here\n")],
    'an interrupt while a part of a row is waiting for the rest', 'what is shown is not the beginning of the regular output: a row is cut, a total size appears',
    r'''
import signal, time
p = subprocess.Popen([sys.executable, '-m', 'kolombos', '-b', '-w4', '-f2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                     env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONUNBUFFERED='1'))
try:
    p.stdin.write(b'abcdef')
    p.stdin.flush()
    p.stdout.read(5)        # the first row
    time.sleep(1)
    p.send_signal(signal.SIGINT)
    out, err = p.communicate(timeout=30)
finally:
    if p.poll() is None:
        p.kill()
        p.wait()
assert '65 66' not in plain(out), out
''')

bug('argv0', 'C28', [(K + 'arghelp.py', "            formatter_class=lambda prog: CustomHelpFormatter(prog),\n            prog='kolombos'\n", "            formatter_class=lambda prog: CustomHelpFormatter(prog),\n            prog=os.path.splitext(os.path.basename(sys.argv[0]))[0].replace('__main__', 'kolombos')\n"),
                     (K + 'arghelp.py', "import re\n", "import os\nimport re\nimport sys\n")],
    'the application is started under another name (a wrapper script), and help or a usage error is printed', 'the messages differ',
    r'''
a = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "run.py"; from kolombos.__main__ import main; main()', '--help'], capture_output=True).stdout
b = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "kolombos"; from kolombos.__main__ import main; main()', '--help'], capture_output=True).stdout
assert a == b
''')

bug('blank-line', 'T05', [(P + 'render.py', "        for line in str(text).splitlines(keepends=True):\n            rendered_text += Span(opening_seq).wrap(line)\n", "        for line in str(text).splitlines(keepends=True):\n            if not line.strip():  # nothing to format\n                rendered_text += line\n                continue\n            rendered_text += Span(opening_seq).wrap(line)\n")],
    'a text with a line of spaces only, and a style with a background or an underline', 'the spaces are not formatted',
    r'''
from pytermor import Style, SgrRenderer
SgrRenderer.set_up(force_styles=True)
assert SgrRenderer.render('a\n  \nb', Style(bg='red')).count('\x1b[41m') == 3
''')

bug('unset-ignored', 'T06', [(P + 'render.py', "    def fg(self, val: str|int|Color):\n        self._fg", "    def fg(self, val: str|int|Color):\n        if val is None:\n            return\n        self._fg")],
    'the foreground color of an existing style is set to None', 'the color stays',
    r'''
from pytermor import Style
s = Style(fg='red')
s.fg = None
assert s.fg.hex_value is None
''')

bug('cached-len', 'T07', [(P + 'render.py', "        self._runs = [self._TextRun(text, style)]\n", "        self._runs = [self._TextRun(text, style)]\n        self._len: int|None = None\n"),
                          (P + 'render.py', "    def append(self, text: str|Text):\n", "    def append(self, text: str|Text):\n        self._len = None\n"),
                          (P + 'render.py', "        return sum(len(r) for r in self._runs)\n", "        if self._len is None:\n            self._len = sum(len(r) for r in self._runs)\n        return self._len\n")],
    'the length of a text is asked for, then something is prepended, and the length is asked for again', 'the length is stale',
    r'''
from pytermor import Text
t = Text('abc')
assert len(t) == 3
t = 'de' + t
assert len(t) == 5
''')

bug('decoration-overwrite', 'T08', [(P + 'render.py', "            span_styles['text-decoration'].update(('underline', 'double'))\n", "            span_styles['text-decoration'] = {'underline', 'double'}\n")],
    'a style both crosslined and double underlined, rendered as HTML', 'the line-through is lost',
    r'''
from pytermor import Style
from pytermor.render import HtmlRenderer
assert 'line-through' in HtmlRenderer.render('x', Style(crosslined=True, double_underlined=True))
''')

bug('crlf-visual', 'T09', [(P + 'util/string_filter.py', r"super().__init__(r'(\n)|\s', repl + '\\1')", r"super().__init__(r'(\r?\n)|\s', repl + '\\1')")],
    'a carriage return right before a line break', 'an invisible character stays invisible',
    r'''
from pytermor.util import VisualuzeWhitespace
assert VisualuzeWhitespace().apply('a\r\nb') == 'a··\nb'
''')

bug('overflow-pad', 'T14', [(P + 'util/time_delta.py', "            result = self._overflow_msg[:self.max_len]\n", "            return self._overflow_msg[:self.max_len]\n")],
    'an interval that is too large, together with the option to pad to the maximum length', 'the result is not padded',
    r'''
from pytermor.util.time_delta import registry
f = registry.get_longest()
assert len(f.format(1e12, always_max_len=True)) == f.max_len
''')

bug('fraction-groups', 'T13', [(P + 'util/__init__.py', "    return f'{value:_}'.replace('_', separator)\n", "    return re.sub(r'(?<=\\d)(?=(\\d{3})+(\\D|$))', lambda m: separator, f'{value!s}')\n"),
                               (P + 'util/__init__.py', "from .auto_float", "import re\n\nfrom .auto_float")],
    'a number with more than three digits after the point', 'separators appear in the fraction',
    r'''
from pytermor.util import format_thousand_sep
assert format_thousand_sep(12345.6789) == '12 345.6789'
''')

bug('falsy-value', 'T15', [('dev/es7s_tpl_processor.py', "        if var not in self._variables.keys():\n", "        if not self._variables.get(var):\n")],
    'a variable whose value is zero or an empty string', 'it counts as undefined',
    r'''
sys.path.insert(0, 'dev')
from es7s_tpl_processor import Es7sTemplateProcessor
assert Es7sTemplateProcessor().substitute('a:{n}:{e}b', {'n': 0, 'e': ''}) == 'a0b'
''')

bug('cr-focus', 'C25', [(T + 'registry.py', "self.WHITESPACE_CARR_RETURN = Template(c_ws, op_ws, '⇤')", "self.WHITESPACE_CARR_RETURN = Template(c_ws, op_ws, LabelPOV('⇤', {DisplayMode.FOCUSED: '⏎'}))")],
    'a carriage return, focused whitespace', 'a symbol appears that is not in the legend',
    r'''
out = rows('-s', '--no-line-numbers', stdin=b'a\rb')[0]
legend = plain(run('--legend').stdout)
assert all(c in legend for c in out if ord(c) > 127), out
''')

bug('rule-cap', 'C30', [(K + 'console.py', "        max_width = get_terminal_width(exact=True)\n", "        max_width = min(get_terminal_width(exact=True), 256)\n")],
    'debug mode in a terminal wider than 256 columns', 'rules are not as wide as the terminal',
    r'''
assert any(len(r) == 300 and set(r) <= set('─┬┼┴') for r in rows('-D', stdin=b'abc', columns='300'))
''')

bug('auto-base', 'C18', [(K + 'arghelp.py', "'--max-bytes', metavar='<num>', action='store', type=int, default=0", "'--max-bytes', metavar='<num>', action='store', type=parse_size, default=0"),
                         (K + 'arghelp.py', "class CustomHelpFormatter(", "def parse_size(s: str) -> int:\n    return int(s.strip() or 0)\n\n\nclass CustomHelpFormatter(")],
    'an empty value of the byte limit', 'a missing value is accepted',
    r'''
assert run('-B', '', stdin=b'abc').returncode == 2
assert run('--max-bytes=', stdin=b'abc').returncode == 2
''')

bug('cr-lines', 'C14', [(B + 'reader.py', r"re.finditer(b'\x0a', raw_input)", r"re.finditer(b'\x0a|\x0d(?!\x0a|$)', raw_input)")],
    'a carriage return without a line feed in the input, and a line limit', 'it counts as a line break',
    r'''
assert rows('-L', '2', stdin=b'a\rb\nc\nd\n') == rows(stdin=b'a\rb\nc')
''')

# -- fifth group

bug('regexp-digits', 'T02', [(P + 'ansi.py', r"return f'\\x1b\\[[0-9;]*{cls._terminator()}'", r"return f'\\x1b\\[(?:[0-9]{{1,3}}(?:;[0-9]{{1,3}})*)?{cls._terminator()}'")],
    'a sequence with a code of more than three digits', 'the regular expression of sequences does not match it',
    r'''
import re
from pytermor import SequenceSGR
assert re.fullmatch(SequenceSGR.regexp(), SequenceSGR(1, 1000).assemble())
assert re.fullmatch(SequenceSGR.regexp(), SequenceSGR(0).assemble())
''')

bug('real-stdout', 'T05', [(P + 'render.py', "        return sys.stdout.isatty()\n", "        return sys.__stdout__.isatty()\n")],
    'the standard output is replaced (redirected within the process), detection is left to the renderer', 'the wrong stream is asked',
    r'''
import io
from pytermor import Style, SgrRenderer
class T(io.StringIO):
    def isatty(self):
        return True
SgrRenderer.set_up()
real, sys.stdout = sys.stdout, T()
try:
    a = SgrRenderer.render('x', Style(bold=True))
    sys.stdout = io.StringIO()
    b = SgrRenderer.render('x', Style(bold=True))
finally:
    sys.stdout = real
assert (a, b) == ('\x1b[1mx\x1b[22m', 'x')
''')

bug('unset-later', 'T06', [(P + 'render.py', "        self._bg: Color = self._resolve_color(val, nullable=False)\n", "        self._bg: Color = self._resolve_color(val, nullable=True)\n")],
    'the background of a style is unset afterwards', 'the style is broken',
    r'''
from pytermor import Style, SgrRenderer
s = Style(fg='red', bg='blue')
s.bg = None
SgrRenderer.set_up(force_styles=True)
assert s == Style(fg='red') and SgrRenderer.render('x', s) == '\x1b[31mx\x1b[39m'
''')

bug('wrap-share', 'T07', [(P + 'render.py', "        self._runs = [self._TextRun(text, style)]\n", "        if isinstance(text, Text) and style is None:\n            self._runs = text._runs\n        else:\n            self._runs = [self._TextRun(text, style)]\n")],
    'a text made of another text, one of which is continued afterwards', 'both are continued',
    r'''
from pytermor import Text
a = Text('a')
b = Text(a)
b += 'c'
assert (a.raw(), b.raw()) == ('a', 'ac')
''')

bug('noop-value', 'T08', [(P + 'render.py', "    def render(cls, text: Any, style: Style = NOOP_STYLE) -> str:\n        return str(text)\n", "    def render(cls, text: Any, style: Style = NOOP_STYLE) -> str:\n        return text or ''\n")],
    'a value which is not a string is rendered without formatting', 'the result is not a text',
    r'''
from pytermor import Style
from pytermor.render import NoOpRenderer
assert NoOpRenderer.render(0, Style(bold=True)) == '0'
''')

bug('both-limits', 'C14', [(B + 'reader.py', "                if max_bytes and self._offset + len(raw_input) > max_bytes:\n", "                elif max_bytes and self._offset + len(raw_input) > max_bytes:\n"),
                           (B + 'reader.py', "                            break\n\n", "                            break\n")],
    'both limits are given, and the one of bytes is reached first', 'the limit of bytes is exceeded',
    r'''
assert plain(run('-L', '5', '-B', '3', stdin=b'abcdef').stdout).split() == ['1│abc'], run('-L', '5', '-B', '3', stdin=b'abcdef')
''')

bug('tilde', 'C13', [(B + 'reader.py', "            self._io = open(self._filename, 'rb')\n", "            self._io = open(os.path.expanduser(self._filename), 'rb')\n"), (B + 'reader.py', "import abc\n", "import abc\nimport os\n")],
    'the name of a file in the working directory begins with a tilde', 'another file is read',
    r'''
d = tempfile.mkdtemp()
home = os.getcwd()
try:
    with open(d + '/~', 'wb') as f:
        f.write(b'text')
    p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0, sys.argv.pop(1)); from kolombos.__main__ import main; main()', home, '~'], input=b'', capture_output=True, cwd=d)
finally:
    os.unlink(d + '/~')
    os.rmdir(d)
assert 'text' in plain(p.stdout), p
''')

bug('tiny-width', 'T16', [(K + 'common.py', "            width -= 2\n", "            width = max(width - 2, 8)\n")],
    'a terminal of less than 10 columns', 'the width is larger than it is',
    r'''
p = subprocess.run([sys.executable, '-c', 'from kolombos import get_terminal_width as w; print(w())'], env=dict(os.environ, COLUMNS='6'), capture_output=True, text=True)
assert p.stdout == '4\n', p
''')

bug('help-fill', 'C31', [(K + 'arghelp.py', "        return ''.join(indent + line for line in text.splitlines(keepends=True))\n",
                          "        return '\\n'.join(textwrap.fill(line, width, initial_indent=indent, subsequent_indent=indent, drop_whitespace=False) for line in text.splitlines())\n")],
    'a narrow terminal', 'control sequences in the help are broken by line breaks',
    r'''
p = subprocess.run([sys.executable, '-c', """
import os, pty, sys
pid, fd = pty.fork()
if pid == 0:
    os.environ['COLUMNS'] = '14'
    os.execv(sys.executable, [sys.executable, '-m', 'kolombos', '--help'])
out = b''
while True:
    try:
        part = os.read(fd, 65536)
    except OSError:
        break
    if not part:
        break
    out += part
os.waitpid(pid, 0)
sys.stdout.buffer.write(out)
"""], capture_output=True)
assert b'--marker' in p.stdout, p
assert b'\x1b' not in re.sub(b'\x1b\\[[0-9;]*m', b'', p.stdout)
''')

bug('help-percent', 'C31', [(K + 'arghelp.py', "        super().__init__(prog, max_help_position=30, indent_increment=self.INDENT_INCREMENT)\n",
                             "        super().__init__(prog, max_help_position=30, indent_increment=self.INDENT_INCREMENT)\n        self._action_max_length = min(self._width, 30)\n        self._compact = self._width < 70\n"),
                            (K + 'arghelp.py', "                    if len(option_string) > 2 or len(action.option_strings) == 1:\n", "                    if len(option_string) > 2 and not self._compact or len(action.option_strings) == 1:\n")],
    'less than 72 columns', 'the arguments of long options are missing in the help',
    r'''
a, b = (re.sub(r'\s', '', plain(run('--help', columns=c).stdout)) for c in ('70', '100'))
assert a == b
''')

bug('nonchar', 'C06', [(B + 'parser/parser.py', r"b'[\xe1-\xec\xee\xef][\x80-\xbf]{2}|'  # - straight 3-byte", r"b'[\xe1-\xec\xee][\x80-\xbf]{2}|\xef(?:[\x80-\xbe][\x80-\xbf]|\xbf[\x80-\xbd])|'  # - straight 3-byte, no U+FFFE, U+FFFF")],
    'U+FFFE or U+FFFF in the input', 'it is shown as binary data',
    r'''
assert 'Ḇ' not in plain(run(stdin='a\uffffb'.encode()).stdout)
''')

bug('colon', 'C07', [(T + 'template_escape_sgr.py', "        pcodes = [int(p.split(\":\")[0]) for p in params if p]\n", "        pcodes = [int(p) for p in params if p]\n")],
    'an SGR sequence with parameters that have parts separated by colons', 'it is shown as another kind of sequence',
    r'''
assert 'ǝ' in plain(run(stdin=b'a\x1b[4:3mb').stdout)
''')

bug('crop-zero', 'C12', [(B + 'parser/buffer.py', "        if offset_delta == -1:\n", "        if offset_delta < 0 or not self._raw_buffer[:offset_delta].isascii():\n")],
    'a part of a sequence at the end of a chunk, after other bytes beyond ASCII', 'processing fails',
    r'''
assert run('-f', '3', stdin='яя'.encode() * 3).returncode == 0
''')

bug('falsy-wrap', 'T01', [(P + 'ansi.py', "        if text is not None:\n            result += str(text)\n", "        if text:\n            result += str(text)\n")],
    'the wrapped value is a zero', 'it disappears',
    r'''
from pytermor import Spans
assert Spans.RED(0) == '\x1b[31m0\x1b[39m'
''')

bug('vt-plain', 'C28', [(K + 'console.py', "        return Span(Seqs.GRAY)(s) if", "        if os.environ.get('TERM', '').startswith('vt'):  # no line drawing there\n            s = s.replace('│', '|')\n        return Span(Seqs.GRAY)(s) if"),
                        (K + 'console.py', "import re\nimport sys\n", "import os\nimport re\nimport sys\n")],
    'TERM is vt100 or the like', 'the output differs',
    r'''
a, b = (subprocess.run([sys.executable, '-m', 'kolombos'], input=b'abc\n', capture_output=True, env=dict(os.environ, TERM=t)).stdout for t in ('vt100', 'xterm'))
assert a == b
''')

bug('long-name', 'C13', [(B + 'reader.py', "    def _open(self):\n", "    def _open(self):\n        if self._filename and len(self._filename) > 255:\n            raise ValueError(f'File name is too long: {len(self._filename)}')\n")],
    'a path of more than 255 characters', 'it is refused although the file exists',
    r'''
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/' + 'a' * 100)
    path = d + '/' + ('a' * 100 + '/../') * 3 + 'f'
    with open(path, 'wb') as f:
        f.write(b'text')
    p = run(path)
finally:
    import shutil
    shutil.rmtree(d)
assert 'text' in plain(p.stdout), p
''')


# ------------------------------------------------------------------------------------------------ sixth group

bug('justify-cap', 'C02', [('kolombos/byteio/formatter/binary.py', "return '   '*num_bytes", "return ('   '*num_bytes)[:300]")],
    'a last row that misses more than a hundred bytes', 'its text column is not aligned with the others',
    """
first, last = rows('-b', '--no-offsets', '-w', '120', stdin=b'a' * 121)
assert len(first) - 120 == len(last) - 1, (first, last)
""")
bug('wide-cols', 'C02', [('kolombos/byteio/formatter/binary.py', "        req_bytes = cur_cols\n", "        req_bytes = cur_cols = min(cur_cols, 1024)\n")],
    'more than 1024 columns', 'rows are shorter than asked for',
    """
assert len(rows('-b', '--no-offsets', '-w', '1500', stdin=b'a' * 1500)) == 1
""")
bug('offset-wrap', 'C03', [('kolombos/console.py', "offset_str = f'{offset:d}'", "offset_str = f'{offset % 10**7:d}'")],
    'decimal offsets over ten million', 'they start from zero again',
    """
assert '10000010' in rows('-b', '--decimal-offsets', '-w', '500000', '-f', '1000000', stdin=b'a' * 10000010)[-1]
""")
bug('lineno-wrap', 'C04', [('kolombos/console.py', "prefix = fmt_(f'{line_num:2d}')", "prefix = fmt_(f'{line_num % 10000:2d}')")],
    'more than 9999 lines', 'numbers start from zero again',
    """
assert rows(stdin=b'\\n' * 10001)[-1].startswith('10001')
""")
bug('color-cache', 'T03', [('pytermor/color.py', "        if hex_value in self._approximation_cache.keys():\n            return self._approximation_cache.get(hex_value)\n",
                            "        if (hex_value & 0xfffffe) in self._approximation_cache.keys():\n            return self._approximation_cache.get(hex_value & 0xfffffe)\n")],
    'a lookup of an odd color right after a registered even one, when the nearest one is another', 'the color found is not the nearest one',
    """
from pytermor.color import ColorIndexed256
a = ColorIndexed256(0x102030, 301)
b = ColorIndexed256(0x102031, 302)
ColorIndexed256.find_closest(0x000000)
assert ColorIndexed256.find_closest(0x102031).hex_value == 0x102031
""")
bug('interrupt-total', 'C27', [('kolombos/byteio/reader.py', "        except KeyboardInterrupt:\n            pass\n", "        except KeyboardInterrupt:\n            self._read_callback(b'', self._offset, True)\n")],
    'an interrupt while waiting for more input', 'an incomplete row and the total are shown',
    """
import signal, time
p = subprocess.Popen([sys.executable, '-m', 'kolombos', '-b', '-w', '4', '-f', '6'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
p.stdin.write(b'abcdef')
p.stdin.flush()
p.stdout.read(10)
time.sleep(1.5)
p.send_signal(signal.SIGINT)
out = p.stdout.read()
p.wait()
assert '6' not in re.findall('0x0*([1-9a-f]+)', plain(out)), out
""")
bug('demo-zero', 'C22', [('kolombos/runner/demo.py', "if aps.columns is None:", "if not aps.columns:")],
    'the demo with the columns set to zero (automatic)', 'it is shown in 16 columns',
    """
assert plain(run('--demo', '-w', '0', columns='200').stdout) != plain(run('--demo', '-w', '16', columns='200').stdout)
""")
bug('one-digit', 'T10', [('pytermor/util/auto_float.py', "if abs_value < 1 and req_len == 1:", "if abs_value <= 1 and req_len == 1:")],
    'exactly one, in one character', 'it is shown as zero',
    """
from pytermor.util import format_auto_float
assert format_auto_float(1, 1) == '1'
""")
bug('pad-left', 'T14', [('pytermor/util/time_delta.py', "result = rjust_sgr(result, self._max_len)", "result = rjust_sgr(result, self._max_len - len(result) % 2)")],
    'an odd length, padded', 'it is a character too short',
    """
from pytermor.util.time_delta import registry
f = registry.get_longest()
assert len(f.format(10000, True)) == len(f.format(100, True)) == len(f.format(0, True)) == f.max_len == len(f.format(4000, True)) == len(f.format(-86400, True))
""")
bug('int-base', 'C20', [('kolombos/arghelp.py', "'--columns', metavar='<num>', action='store', type=int,", "'--columns', metavar='<num>', action='store', type=lambda v: int(v, 0),")],
    'a number with leading zeros', 'it is refused',
    """
assert run('-b', '-w', '08', stdin=b'abc').stdout == run('-b', '-w', '8', stdin=b'abc').stdout
""")
bug('nfc', 'C06', [('kolombos/byteio/template/template_utf8.py', "decoded = raw.decode('utf8', errors='replace')\n", "decoded = __import__('unicodedata').normalize('NFC', raw.decode('utf8', errors='replace'))\n")],
    'a character with another canonical form', 'another character is shown',
    """
assert '\\u212b' in plain(run(stdin='\\u212b'.encode()).stdout)
""")
bug('gone-sgr', 'T09', [('pytermor/util/stdlib_ext.py', "    return fillchar * max(0, width - len(sanitized)) + s\n", "    if s and len(sanitized) == 0:\n        return s\n    return fillchar * max(0, width - len(sanitized)) + s\n")],
    'a string that consists of control sequences only', 'it is not padded',
    """
from pytermor.util import rjust_sgr
assert rjust_sgr('\\x1b[1m', 3) == '   \\x1b[1m'
""")
bug('hash-color', 'T04', [('pytermor/color.py', "return f'{prefix or \"\":s}{self._hex_value:06x}'", "return f'{prefix or \"\":s}{self._hex_value:{'06x' if prefix else 'x'}}'")],
    'a small color displayed without a prefix', 'it has less than six digits',
    """
from pytermor.color import ColorRGB
assert ColorRGB(1).format_value(None) == '000001'
""")

# ------------------------------------------------------------------------------------------------ seventh group

bug('brief-cap', 'C08', [('kolombos/byteio/template/template_escape_sgr.py', "params = self._details_fmt_str.split(';')", "params = self._details_fmt_str.split(';', 16)[:16]")],
    'a sequence with more than 16 codes', 'the rest of them is missing in brief details',
    """
seq = b'\\x1b[' + b';'.join(b'%d' % n for n in range(31, 51)) + b'm'
assert '50' in plain(run('-m', '1', stdin=seq).stdout)
""")
bug('csi-cap', 'C07', [('kolombos/byteio/parser/parser.py', "b'((\\x1b)(\\\\x5b)([\\x30-\\x3f]*)([\\x20-\\x2f]*)([\\x40-\\x7e]))|'  # [ 2|  3-7]", "b'((\\x1b)(\\\\x5b)([\\x30-\\x3f]{0,255})([\\x20-\\x2f]*)([\\x40-\\x7e]))|'  # [ 2|  3-7]")],
    'an escape sequence with more than 255 bytes of parameters', 'it is shown as another one followed by text',
    """
seq = b'\\x1b[' + b'1;' * 150 + b'1m'
assert plain(run(stdin=seq + b'x').stdout) == plain(run(stdin=b'\\x1b[1mx').stdout)
""")
bug('nf-long', 'C07', [('kolombos/byteio/parser/parser.py', "b'((\\x1b)([\\x20-\\x2f])([\\x20-\\x2f]*)([\\x30-\\x7e]))|'", "b'((\\x1b)([\\x20-\\x2f])([\\x20-\\x2f]?)([\\x30-\\x7e]))|'")],
    'an nF escape sequence with three intermediate bytes or more', 'it is shown as a lone escape followed by text',
    """
assert plain(run(stdin=b'\\x1b(((Bx').stdout) == plain(run(stdin=b'\\x1b(Bx').stdout)
""")
bug('plane-16', 'C06', [('kolombos/byteio/parser/parser.py', "b'\\xf4[\\x80-\\x8f][\\x80-\\xbf]{2}'       # - plane 16", "b'\\xf4[\\x80-\\x8e][\\x80-\\xbf]{2}'       # - plane 16")],
    'one of the last 4096 characters of Unicode', 'it is shown as binary data',
    """
assert '\\U0010f123' in plain(run(stdin='\\U0010f123'.encode()).stdout)
""")
bug('empty-total', 'C03', [('kolombos/byteio/formatter/binary.py', "        if self._parser_buffer.closed and SettingsManager.app_settings.effective_print_offsets:\n", "        if self._parser_buffer.closed and self._offset and SettingsManager.app_settings.effective_print_offsets:\n")],
    'empty input in binary mode', 'no total is shown',
    """
assert '0x0000' in plain(run('-b', stdin=b'').stdout)
""")
bug('stale-brief', 'C08', [('kolombos/byteio/template/template_escape_sgr.py', "        self._brief_details_processed = f'{Seqs", "        if brief_names:\n            self._brief_details_processed = f'{Seqs")],
    'brief details of a sequence with empty parameters only, after another sequence', 'details of the previous sequence are shown',
    """
assert plain(run('-m', '1', stdin=b'\\x1b[31ma\\x1b[;mb').stdout).count('31') == 1
""")
bug('level-three', 'C08', [('kolombos/settings.py', "        if self.marker == 1:\n            return MarkerDetailsEnum.BRIEF_DETAILS\n        return MarkerDetailsEnum.FULL_DETAILS", "        if self.marker == 2:\n            return MarkerDetailsEnum.FULL_DETAILS\n        return MarkerDetailsEnum.BRIEF_DETAILS")],
    'a level of details over 2', 'brief details are shown',
    """
assert run('-m', '3', stdin=b'\\x1b[0;31ma').stdout == run('-m', '2', stdin=b'\\x1b[0;31ma').stdout
""")
bug('no-cross', 'C11', [('kolombos/byteio/template/template_escape_sgr.py', "IntCodes.OVERLINED, IntCodes.CROSSLINED,\n", "IntCodes.OVERLINED,\n")],
    'colored markers and a strikethrough sequence', 'its marker is not crossed',
    """
out = run('--color-markers', stdin=b'\\x1b[9ma').stdout.split(b'\\xc7\\x9d')[0]
assert re.search(rb'\\[(?:[0-9;]*;)?9[;m]', out), out
""")
bug('focus-null', 'C10', [('kolombos/byteio/template/template.py', "            self._opening_seq_stack.set(DisplayMode.FOCUSED, self._opening_seq_stack.get() + Seqs.INVERSED)", "            self._opening_seq_stack.set(DisplayMode.FOCUSED, self._opening_seq_stack.get(self._read_mode) + (Seqs.INVERSED if label.get() else Seqs.UNDERLINED))")],
    'focused UTF-8 sequences (their template has no symbol of its own)', 'they are underlined, and not inverted',
    """
assert b'\\x1b[94;7m' in run('--focus-utf8', stdin='\\u00e9'.encode()).stdout
""")
bug('mode-first', 'C09', [('kolombos/byteio/template/template.py', "        return self._label_stack.get(self._display_mode, self._read_mode)", "        return self._label_stack.get(self._read_mode, self._display_mode) if b >= 0xf5 else self._label_stack.get(self._display_mode, self._read_mode)")],
    'binary mode, ignored binary data with bytes from 0xf5 up', 'they have the symbol of binary data',
    """
assert '\\u25af' not in plain(run('-b', '-I', stdin=b'\\xff').stdout)
""")
bug('sep-float', 'T13', [('pytermor/util/__init__.py', "return f'{value:_}'.replace('_', separator)", "return f'{value:,}'.replace(',', separator[:1])")],
    'a separator of more than one character', 'it is cut',
    """
from pytermor.util import format_thousand_sep
assert format_thousand_sep(1234567, '&nbsp;') == '1&nbsp;234&nbsp;567'
""")

# ------------------------------------------------------------------------------------------------ eighth group

bug('eq-hash', 'T02', [('pytermor/ansi.py', "        return int.from_bytes(self.assemble().encode(), byteorder='big')", "        return hash(self.assemble()[:32])"),
                       ('pytermor/ansi.py', "    def __eq__(self, other: SequenceSGR):\n        if type(self) != type(other):\n            return False\n        return self._params == other._params", "    def __eq__(self, other: SequenceSGR):\n        if type(self) != type(other):\n            return False\n        return hash(self) == hash(other)")],
    'two sequences with the same first 32 characters', 'they are equal',
    """
from pytermor import SequenceSGR
a = [38, 2, 100, 101, 102, 48, 2, 103, 104, 105]
assert SequenceSGR(*a, 1) != SequenceSGR(*a, 3)
""")
bug('file-gz', 'C13', [('kolombos/byteio/reader.py', "            self._io = open(self._filename, 'rb')\n", "            import gzip\n            self._io = (gzip.open if str(self._filename).endswith('.gz') else open)(self._filename, 'rb')\n")],
    'a file the name of which ends with .gz', 'it is unpacked before it is read',
    """
import gzip, tempfile
d = tempfile.mkdtemp()
open(d + '/a.gz', 'wb').write(gzip.compress(b'abc'))
open(d + '/b', 'wb').write(gzip.compress(b'abc', mtime=0))
out = run('-b', d + '/b').stdout
open(d + '/b.gz', 'wb').write(open(d + '/b', 'rb').read())
assert run('-b', d + '/b.gz').stdout == out
""")
bug('prefix-len', 'T14', [('pytermor/util/prefixed_unit.py', "        result += max([len(p) for p in self._prefixes if p])\n", "        result += len(self._prefixes[-1] or '')\n")],
    'prefixes of different lengths, the longest of which is not the last', 'the declared maximum length is exceeded',
    """
from pytermor.util.prefixed_unit import PrefixedUnitFormatter
f = PrefixedUnitFormatter(5, prefixes=[None, 'kilo', 'M'])
assert f.max_len >= len(f.format(1234))
""")
bug('render-cached', 'T07', [('pytermor/render.py', "        return ''.join(run._render_using(renderer) for run in self._runs)\n", "        key = (renderer, len(self._runs))\n        if getattr(self, '_rendered', (None,))[0] != key or any(r._style for r in self._runs[-1:]):\n            self._rendered = (key, ''.join(run._render_using(renderer) for run in self._runs))\n        return self._rendered[1]\n"),
                            ('pytermor/render.py', "            self._runs.insert(0, self._TextRun(text))\n", "            self._runs = [self._TextRun(text + self._runs[0]._string, self._runs[0]._style), *self._runs[1:]] if not self._runs[0]._style else [self._TextRun(text), *self._runs]\n")],
    'a text rendered, prepended with a string, and rendered again, the first and the last part of which have no style', 'the second time it is the same as the first',
    """
from pytermor import Text
t = Text('b')
t.render()
t.prepend('a')
assert t.render() == 'ab'
""")
bug('env-marker', 'C28', [('kolombos/settings.py', "        if self.marker <= 0:\n", "        import os\n        if self.marker <= 0 and os.environ.get('KOLOMBOS_DETAILS'):\n            return MarkerDetailsEnum.FULL_DETAILS\n        if self.marker <= 0:\n")],
    'a variable of the environment that is unknown to anyone', 'the level of details is another',
    """
a = run(stdin=b'\\x1b[31ma').stdout
os.environ['KOLOMBOS_DETAILS'] = '1'
assert run(stdin=b'\\x1b[31ma').stdout == a
""")
bug('sgr0-color', 'C25', [('kolombos/byteio/template/registry.py', "EscapeSequenceTemplate(SequenceSGR.init_color_indexed(255) +\n", "EscapeSequenceTemplate(SequenceSGR.init_color_indexed(254) +\n")],
    'a reset sequence', 'its marker is of another color than in the legend',
    """
assert b'38;5;255' in run(stdin=b'\\x1b[ma').stdout
""")
bug('demo-lines', 'C22', [('kolombos/runner/demo.py', "            aps.set_default_read_mode(ReadMode.BINARY)\n", "            aps.set_default_read_mode(ReadMode.BINARY)\n            aps.max_lines = None\n")],
    'the demo with a line limit', 'the limit has no effect',
    """
assert len(run('--demo', '-L', '2').stdout) < len(run('--demo').stdout)
""")
bug('focus-tab', 'C10', [('kolombos/byteio/template/registry.py', "LabelPOV('⇥', {ReadMode.TEXT: '⇥\\t'}))", "LabelPOV('⇥', {ReadMode.TEXT: '⇥\\t', DisplayMode.FOCUSED: '⇥'}))")],
    'text mode, focused whitespace, a tab', 'only its symbol is shown, without the tab itself',
    """
assert plain(run('-s', stdin=b'a\\tb').stdout).replace('·', ' ') == plain(run(stdin=b'a\\tb').stdout)
""")
bug('unicode-lines', 'C04', [('kolombos/byteio/segment/segment.py', "        return '\\n' in self._processed\n", "        return len(self._processed.splitlines()) > (self._processed[-1:] not in '\\n\\u2028\\u2029')\n")],
    'a Unicode line separator', 'it ends a row',
    """
assert plain(run(stdin='a\\u2028b'.encode()).stdout).count('2\\u2502') == 0
""")
bug('plus-prefix', 'C13', [('kolombos/arghelp.py', "            prog='kolombos'\n", "            prog='kolombos',\n            prefix_chars='-+'\n")],
    'a file name that begins with a plus', 'it is taken for an option',
    """
import tempfile
d = tempfile.mkdtemp()
open(d + '/+a', 'wb').write(b'abc')
env = dict(os.environ, PYTHONPATH=os.getcwd())
r = subprocess.run([sys.executable, '-m', 'kolombos', '+a'], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert r.returncode == 0 and 'abc' in plain(r.stdout)
""")
bug('color-cap', 'C11', [('kolombos/byteio/template/template_escape_sgr.py', "        self._details_opening_seq = SequenceSGR(*pcodes_allowed)\n", "        self._details_opening_seq = SequenceSGR(*pcodes_allowed[-16:])\n")],
    'colored markers, a sequence with more than 16 codes of colors and attributes', 'the first ones are not applied to its marker',
    """
seq = b'\\x1b[9;48;2;1;2;3;38;2;4;5;6;38;2;7;8;9;38;2;4;5;6m'
out = run('--color-markers', stdin=seq + b'a').stdout.split(b'\\xc7\\x9d')[0]
assert re.search(rb'\\[(?:[0-9;]*;)?9;48;2;1', out), out
""")
bug('ignored-details', 'C08', [('kolombos/byteio/template/template_control.py', "        if self._display_mode.is_ignored:\n            return\n", "        if self._display_mode.is_ignored and b < 0x1c:\n            return\n")],
    'ignored control characters from 0x1c to 0x1f, marker details', 'the details are shown',
    """
assert plain(run('-C', '-m', '2', stdin=b'\\x1d').stdout) == plain(run('-C', stdin=b'\\x1d').stdout)
""")
bug('combining', 'C06', [('kolombos/byteio/template/template_utf8.py', "            if self._read_mode.is_binary:\n", "            if self._read_mode.is_text and __import__('unicodedata').combining(decoded):\n                decoded = '\\u25cc' + decoded\n            if self._read_mode.is_binary:\n")],
    'text mode, a combining character', 'an additional character is shown with it',
    """
assert 'e\\u0301' in plain(run(stdin='e\\u0301'.encode()).stdout)
""")

# ninth group
bug('shared-char', 'C01', [('kolombos/byteio/template/template_utf8.py', "    def _process(self, raw: bytes) -> str:\n", "    def _create_primary_segment(self, opening_seq, raw, processed):\n        if raw not in self._cache:  # texts consist of the same characters\n            self._cache[raw] = super()._create_primary_segment(opening_seq, raw, processed)\n        return self._cache[raw]\n\n    def _process(self, raw: bytes) -> str:\n"),
                           ('kolombos/byteio/template/template_utf8.py', "        super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)\n", "        super().__init__(CharClass.UTF_8_SEQ, opening_seq, label)\n        self._cache = {}\n")],
    'a UTF-8 character that is split between rows, and again the same character after that', 'cached pieces of data are cut by rows, so that bytes are lost',
    """
data = 'ab\\u20acdefgh\\u20ac'.encode()
out = plain(run('-b', '-w', '4', stdin=data).stdout)
got = ''.join(re.findall(r'(?<= )[0-9a-f]{2}(?= )', ' '.join(line.split('\\u2502')[1] for line in out.splitlines() if line.count('\\u2502') == 2)))
assert bytes.fromhex(got) == data, out
""")
bug('iter-spent', 'C19', [('kolombos/byteio/reader.py', "                    for line_break in re.finditer(b'\\x0a', raw_input):\n", "                    line_breaks = re.finditer(b'\\x0a', raw_input)\n                    if SettingsManager.app_settings.debug > 2:\n                        self._debug_buffer.write(3, f'Line breaks: {Spans.BOLD(sum(1 for _ in line_breaks))}', offset=self._offset)\n                    for line_break in line_breaks:\n")],
    'a line limit at the third debug level', 'the limit has no effect: the line breaks are counted for a debug message, after which there are no more of them',
    """
out = run('-DDD', '-L', '1', stdin=b'one\\ntwo\\n').stdout
assert b'Encountered EOF' in out and '2\\u2502' not in [line.strip()[:2] for line in plain(out).splitlines()], plain(out)
""")
bug('overline-close', 'C16', [('pytermor/ansi.py', "(IntCodes.OVERLINED, IntCodes.OVERLINED_OFF), ]", "(IntCodes.OVERLINED, IntCodes.CROSSLINED_OFF), ]")],
    'colored markers and an overlined (ESC[53m) sequence', 'the rest of the output is overlined',
    """
out = run('--color-markers', stdin=b'\\x1b[53ma').stdout
assert b'[55' in out or b';55' in out, out
""")
bug('brief-first', 'C08', [('kolombos/byteio/template/template_escape_sgr.py', "                if len(pcodes) >= 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:\n", "                if len(pcodes) > 4 and pcodes[0] == IntCodes.EXTENDED_MODE_RGB:\n")],
    'an RGB color that is the last one in its sequence', 'brief details list its components instead of the color',
    """
assert 'F0A0B0C' in plain(run('-m', '1', stdin=b'\\x1b[38;2;10;11;12ma').stdout)
""")
bug('drain-input', 'C14', [('kolombos/byteio/reader.py', "            self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)\n", "            while self.reading_stdin and self._read_chunk():  # whoever writes it should not get a SIGPIPE\n                pass\n            self._debug_buffer.write(1, f'Encountered EOF', offset=self._offset)\n")],
    'a limit and standard input without an end', 'the application does not end when the limit is reached',
    """
p = subprocess.Popen([sys.executable, '-m', 'kolombos', '-L', '2'], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL)
try:
    for _ in range(3000):
        p.stdin.write(b'line\\n' * 1000)
    assert False, 'still reading'
except BrokenPipeError:
    pass
finally:
    p.kill()
""")
bug('stdin-tty', 'C13', [('kolombos/byteio/reader.py', "        self._chunk_size = self._get_chunk_size()\n", "        self._interactive = sys.stdin.isatty()\n        self._chunk_size = self._get_chunk_size()\n")],
    'an input file, and no standard input at all', 'the application fails: it looks at standard input although it is not going to read it',
    """
import tempfile
d = tempfile.mkdtemp()
open(d + '/a', 'wb').write(b'abc')
r = subprocess.run(['sh', '-c', 'exec "$0" -m kolombos "$1" <&-', sys.executable, d + '/a'], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
assert r.returncode == 0 and 'abc' in plain(r.stdout)
""")
