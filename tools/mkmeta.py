"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(), mech=mech, technique=technique, note=note))


TESTS = 'The existing tests are three examples of the row queue and doctests of the formatting library; '
K = 'kolombos/'
B = K + 'byteio/'
T = B + 'template/'

prop('C01', 'Binary mode shows every input byte exactly once, in order',
     'In binary mode, the hexadecimal column of all rows put together is exactly the input: no byte is lost, added, repeated, reordered or altered, for any bytes, any combination of options and any read buffer size. '
     'Every byte is shown as two hexadecimal digits.',
     'inputs configurations', 'all byte strings, up to several read buffers long, x all display options and buffer sizes',
     TESTS + 'none runs the application. Loss or duplication needs a particular alignment of characters, rows and chunks.',
     f'{B}formatter/binary.py {B}segment/buffer.py {B}parser/parser.py {B}parser/buffer.py {B}reader.py',
     [('segments keep raw bytes and are split by byte count', B + 'segment/segment.py'), ('regex driven segmentation', B + 'parser/parser.py')],
     'property-based testing: round trip (hex column parsed back) over generated inputs and options', 'Inputs up to about 12 KB; the output is parsed by an independent terminal model.')
prop('C02', 'Binary mode rows are aligned: fixed bytes per row, one character per byte',
     'In binary mode every row holds exactly as many bytes as set by the columns option (only the last one can be shorter), its text column holds exactly one character per byte, and the text column starts at the same position in every row (unless an offset is longer than its column). '
     'Without the option (or with a non-positive value) the amount is picked from the terminal width: it is a positive multiple of four, and the row fits into the terminal unless it is already at the minimum of four.',
     'inputs configurations', 'all inputs x all column counts and terminal widths',
     TESTS + 'none renders a row.', f'{B}formatter/binary.py {B}segment/buffer.py {K}common.py',
     [('column count computed from terminal width', B + 'formatter/binary.py'), ('padding of the last row', B + 'formatter/binary.py')],
     'property-based testing: structural invariant of parsed rows over generated inputs, column counts and terminal widths', 'Widths 1..500 for automatic column count, 1..70 explicit.')
prop('C03', 'Offsets and the total size in binary mode are true',
     'In binary mode, with offsets enabled, each row is labelled with the offset of its first byte in the input, and a final row shows the total size of the data, however long the input is. '
     'Offsets are hexadecimal with a 0x prefix and an even number of digits, at least four, or decimal if requested, right-aligned to a column of eight characters, and never truncated.',
     'inputs configurations', 'inputs of any length x column counts x offset bases',
     TESTS + 'none reaches an offset.', f'{B}formatter/binary.py {B}formatter/_abstract.py',
     [('offset counter', B + 'formatter/binary.py')], 'property-based testing: reference computation of every label, inputs up to a megabyte', 'Inputs over about a megabyte are not run; the labels of larger offsets (up to 2^64) are made by calling the code that makes them.')
prop('C04', 'Text mode keeps lines: one row per input line, correct numbers and characters',
     'In text mode there is exactly one output row per input line, lines being separated by LF only: empty lines, CR and other separators, a missing final line break and incomplete characters or escape sequences at the end of a line do not change it. '
     'Rows are numbered from 1 without gaps (unless disabled), numbers are never truncated, and the characters of each line are shown in the input order with none lost; a line ends with the line break marker exactly if the input line ends with a line break.',
     'inputs configurations', 'all inputs x all text mode options; up to 1500 lines',
     TESTS + 'only splitting of three hand-written segment lists is covered.', f'{B}formatter/text.py {B}segment/buffer.py {B}parser/parser.py {T}template_newline.py',
     [('line detaching', B + 'segment/buffer.py'), ('line numbering', B + 'formatter/text.py')], 'property-based testing: reference line model over generated inputs', 'Overlong ambiguous escape tails are excluded where the documentation leaves the reading open.')
prop('C05', 'Every single byte is shown by the marker of its character class',
     'Every byte outside escape sequences and UTF-8 characters is classified by its value - printable ASCII, whitespace, control character, lone ESC, or binary (0x80-0xff) - and is shown with the documented symbol and color of its class: in binary mode one symbol per byte, in text mode one marker per character. '
     'Equal bytes next to each other are shown the same way as single ones, and a hexadecimal value is shown with the same color as its symbol.',
     'inputs configurations', 'all 256 byte values in any neighbourhood x both modes',
     TESTS + 'the character tables are not covered.', f'{T}registry.py {T}template.py {T}template_control.py {T}template_printable.py {T}template_newline.py {B}const.py {B}parser/parser.py',
     [('templates per character class', T + 'registry.py')], 'property-based testing: differential against an independent reference renderer', 'Reference table transcribed from the legend.')
prop('C06', 'Exactly the valid UTF-8 sequences are recognized as characters',
     'A run of bytes is treated as a UTF-8 character exactly if it is well-formed (the same as a strict decoder accepts: no overlong forms, surrogates, values over U+10FFFF or truncated sequences), wherever it stands, and the other bytes over 0x7f are treated as binary data, one by one. '
     'In text mode, and in binary mode with decoding enabled, the character itself is displayed (followed by as many fillers as needed to keep one symbol per byte in binary mode); otherwise every byte of it gets the UTF-8 marker.',
     'inputs configurations', 'all sequences of bytes 0x80-0xff, well-formed and malformed, in any neighbourhood x both modes, with and without decoding',
     TESTS + 'no multibyte character is covered.', f'{T}template_utf8.py {B}parser/parser.py',
     [('UTF-8 template', T + 'template_utf8.py'), ('segmentation regex', B + 'parser/parser.py')], 'property-based testing: differential against Python\'s strict decoder', 'UTF-8 encoded C1 controls are excluded from the "character itself" part: see C15.')
prop('C07', 'Escape sequences are recognized by type and shown as such',
     'Each escape sequence in the input - SGR, other CSI, nF, Fp, Fe and Fs ones - is recognized with its exact extent and type, wherever it begins or ends, and is shown with the marker of its type; in text mode the marker is followed by the rest of the sequence if full marker details are on. '
     'Incomplete and malformed sequences are shown as a lone ESC followed by ordinary characters.',
     'inputs configurations', 'all sequences of ESC and ASCII bytes, complete, cut off, nested and adjacent, x both modes and detail levels',
     TESTS + 'no escape sequence is covered.', f'{T}template_escape.py {T}template_escape_sgr.py {B}parser/parser.py {T}registry.py',
     [('escape regexes', B + 'parser/parser.py'), ('sigils', T + 'registry.py')], 'property-based testing: differential against an independent ECMA-48 scanner', 'The reading of overlapping sequences follows the order of the documented classes.')
prop('C08', 'Marker details follow the requested level',
     'In text mode the marker option decides what follows the marker of a control character or an escape sequence: nothing at level 0, the significant parameters or value at level 1, and everything at level 2 (out-of-range levels act as the nearest valid one), with separators between adjacent details unless disabled. '
     'This holds for every marker up to the end of the input, details are never shown for ignored classes, and binary mode is not affected.',
     'inputs configurations', 'all inputs x all levels x separators x ignored and focused classes',
     TESTS + 'details are not covered.', f'{T}template_control.py {T}template_escape.py {T}template_escape_sgr.py {B}const.py {B}segment/buffer.py',
     [('details format per template', T + 'template_escape.py'), ('separator insertion', B + 'parser/parser.py')], 'property-based testing: differential against a reference renderer', 'The format of details is transcribed from documentation and demo.')
prop('C09', 'Ignored classes become uniform fillers and change nothing else',
     'With classes of characters ignored, each of their characters is shown as the filler symbol in the filler color - one per byte in binary mode - and every other character is shown exactly as it is without the ignore flags. '
     'Any combination of the six classes can be ignored, and the layout (rows, lines, offsets) stays the same.',
     'inputs configurations', 'all inputs x all non-empty sets of ignored classes x other options',
     TESTS + 'no option is covered.', f'{K}settings.py {T}template.py {T}registry.py {B}partial_override.py',
     [('overrides per display mode', B + 'partial_override.py')], 'property-based testing: metamorphic (with and without flags) and differential against a reference renderer', 'All 63 sets are drawn at random.')
prop('C10', 'Focused classes are highlighted and change nothing else',
     'With classes of characters focused, each of their characters is highlighted (inverse video or the focus color of its class) while its symbol stays (a space gets a visible symbol), and every other character is shown exactly as it is without the focus flags. '
     'Any combination of the six classes can be focused, together with any ignored ones.',
     'inputs configurations', 'all inputs x all non-empty sets of focused classes x ignored classes x other options',
     TESTS + 'no option is covered.', f'{K}settings.py {T}template.py {T}registry.py {B}partial_override.py',
     [('overrides per display mode', B + 'partial_override.py')], 'property-based testing: metamorphic (with and without flags) and differential against a reference renderer', 'All 63 sets are drawn at random.')
prop('C11', 'Colored markers apply exactly the format of the sequence they stand for',
     'With colored markers enabled, the marker of each SGR sequence is shown with the colors and attributes which that very sequence sets - 16-color, 256-color and RGB codes, on and off - and no other character is styled by it. '
     'Symbols, rows and other markers are the same as without the option.',
     'inputs configurations', 'all SGR parameter lists x both modes x other options',
     TESTS + 'the option is not covered.', f'{T}template_escape_sgr.py {B}segment/printer.py {B}segment/sequence_ref.py',
     [('SGR parsing of markers', T + 'template_escape_sgr.py')], 'property-based testing: terminal emulation against a reference renderer, and metamorphic against the run without the option', 'Attributes which would make the marker unreadable are expected as the code documents them.')
prop('C12', 'The result does not depend on the size of the read buffer',
     'For any input and options the output is the same for every read buffer size, from one byte up: a character, an escape sequence, a line or a row that falls on a boundary between reads is shown as if the input were read at once.',
     'inputs configurations schedules', 'all inputs x all buffer sizes x all options',
     TESTS + 'nothing is read by them; a boundary has to fall inside a construct.', f'{B}reader.py {B}parser/parser.py {B}parser/buffer.py {B}segment/buffer.py',
     [('unparsed tail is kept until more data', B + 'parser/parser.py'), ('waiting for more data', B + 'common.py')], 'property-based testing: metamorphic over read sizes', 'Sizes 1..60 on short inputs, around 4096 on long ones.')
prop('C13', 'The result does not depend on where the input comes from',
     'The same bytes give the same output when read from a regular file, standard input, "-", a pipe delivering them in arbitrary pieces (in non-blocking mode or not), a named pipe or a device file, for any file name and options, and when a file is given, standard input is not read. '
     'Input files are never modified and no files are created.',
     'inputs configurations schedules', 'all inputs x sources x file names x pieces delivered',
     TESTS + 'no file or stream is opened.', f'{B}reader.py {K}runner/byteio.py {K}settings.py',
     [('opening of the source', B + 'reader.py')], 'property-based testing: metamorphic over input sources', 'Pieces are delivered by a feeder process; scheduling between pieces is the kernel\'s.')
prop('C14', 'Byte and line limits act exactly as cutting the input',
     'With a byte limit the output is exactly that for the first so many bytes of the input; with a line limit it is exactly that for the input cut right before the last line break of those lines (so the line break of the last allowed line itself is not shown); zero or an omitted option mean no limit, and when both are given the stricter one wins. '
     'An input without an end is no exception: at the limit the application ends. This does not depend on the read buffer size or mode.',
     'inputs configurations', 'all inputs x limits below, at and over the size x buffer sizes',
     TESTS + 'limits are not covered.', f'{B}reader.py {K}settings.py', [('limit accounting', B + 'reader.py')],
     'property-based testing: metamorphic (limit against cut input)', 'That the last line break is not shown is recorded as observed behaviour.')
prop('C15', 'The input cannot control the terminal',
     'Whatever the input, the name of its file, the options and the debug level, the output is valid UTF-8 and contains no control characters (including the C1 ones in UTF-8 form) and no escape sequences other than the well-formed SGR ones of the application itself, except line breaks and, in text mode, a tab right after its marker. '
     'Without colored markers and debug mode the styles used never depend on the sequences in the input.',
     'inputs configurations', 'all inputs, in particular those rich in control characters and sequences, x all options and debug levels',
     TESTS + 'none looks at the output.', f'{T}template.py {T}template_control.py {T}template_escape.py {T}template_utf8.py {B}parser/parser.py {K}console.py',
     [('replacement of control characters by markers', T + 'template_control.py')], 'property-based testing: output filter invariant under hostile generated input', 'Only control characters (category Cc) are considered; bidi and format characters are shown as is.')
prop('C16', 'Styles never leak',
     'The style of one character never spreads to others: every row and the whole output end in the default style, padding is unstyled, and offsets, line numbers, separators and the total size look the same in every row and for every input. '
     'The only exception is the dimmed gray filler standing for an ignored line break at the end of a row.',
     'inputs configurations', 'all inputs, SGR sequences in particular, x all options', TESTS + 'none looks at the style of the output.',
     f'{B}segment/printer.py {B}segment/buffer.py {B}segment/sequence_ref.py {B}formatter/binary.py {B}formatter/text.py',
     [('closing sequence for each opening one', B + 'segment/sequence_ref.py')], 'property-based testing: terminal emulation invariant', 'Terminal emulation covers SGR only.')
prop('C17', 'Any input and any valid options are processed to the end',
     'For any input and any combination of valid options, widths, limits, buffer sizes, debug levels and terminal sizes, the application ends successfully, without hanging, with the output complete and without error messages.',
     'inputs configurations', 'all byte strings x all option combinations x terminal sizes, set or broken', TESTS + 'none runs the application.',
     f'{K}app.py {B}parser/parser.py {B}reader.py {B}formatter/binary.py {B}formatter/text.py {K}console.py {K}settings.py',
     [('main loop', B + 'reader.py')], 'property-based testing (fuzzing) of the whole application: no crash, no hang', 'A run is a hang after 60 s of CPU time; typical runs take 20 ms, the largest (40 KB) up to 17 s.')
prop('C18', 'Failures are reported cleanly',
     'When the input cannot be opened or read, the application exits with code 1, prints an error message with the kind of the error on stderr and a hint about debug mode, but no traceback (unless in debug mode), and no control characters from file names; rows complete before the failure are shown and correct. '
     'A malformed command line - unknown or conflicting options, missing or invalid values, several files - ends with exit code 2 and a message on stderr, with nothing on stdout.',
     'fault_sequences inputs configurations', 'missing and unreadable files, directories, read errors after any number of bytes, malformed command lines', TESTS + 'no failure is provoked.',
     f'{K}app.py {K}console.py {K}arghelp.py {B}reader.py', [('exception handler', K + 'app.py'), ('argument parser', K + 'arghelp.py')],
     'property-based testing with fault injection', '')
prop('C19', 'Debug mode adds messages and changes nothing else',
     'In debug mode of any level the regular rows are printed with the same characters, styles, labels and order as without it, interleaved with debug messages.',
     'inputs configurations', 'all inputs x options x debug levels x buffer sizes', TESTS + 'debug output is not covered.', f'{K}console.py {B}reader.py {B}parser/parser.py {B}segment/buffer.py {B}formatter/_abstract.py',
     [('debug buffers', K + 'console.py')], 'property-based testing: metamorphic (with and without debug mode)', 'Regular rows are told apart by the color of their prefix.')
prop('C20', 'Spelling and order of options do not matter',
     'Short and long spellings of an option, with the value separate, glued or after "=" and with or without leading zeros, bundled or not, in any order and on either side of the file name, mean the same; the file name may come after "--" and then begin with a dash. '
     'Options of the other mode are accepted and have no effect, and text mode is the default.',
     'inputs configurations', 'all options x spellings x orders x positions', TESTS + 'the command line is not covered.', f'{K}settings.py {K}arghelp.py', [('argument parser', K + 'settings.py')],
     'property-based testing: metamorphic over spellings', 'Conflicting options are excluded here: see C18.')
prop('C21', 'Input after a line break is shown independently of what precedes it',
     'If the first of two inputs ends with a line break, the picture of the two joined together is the pictures of both one after another: in text mode the rows are the same (only renumbered), in binary mode the bytes have the same symbols and styles. '
     'Nothing seen earlier in the input affects how later lines are shown.',
     'inputs histories', 'all pairs of inputs x options x buffer sizes', TESTS + 'none renders two inputs.', f'{B}parser/parser.py {T}template.py {T}registry.py {B}segment/buffer.py',
     [('templates shared by all segments', T + 'registry.py')], 'property-based testing: metamorphic (concatenation)', 'Two inputs of about 12 pieces each.')
prop('C22', 'Demo, legend, version and help do what they say',
     'The demo shows the bundled sample exactly as if it were given as an input file with the same options, by default in binary mode with decoding and 16 columns, followed by a hint about the legend. '
     'Legend and version print the whole legend and the actual versions of the application and of the formatting library, whatever other options or input are given; help prints the usage.',
     'inputs configurations', 'the four informational modes x other options, input and terminal sizes', TESTS + 'the modes are not covered.', f'{K}runner/demo.py {K}runner/legend.py {K}runner/version.py {K}runner/factory.py {K}settings.py',
     [('runner selection', K + 'runner/factory.py')], 'property-based testing: differential (demo against regular run) and metamorphic', 'Precedence between modes is recorded as observed.')
prop('C23', 'A character looks the same in every row width',
     'In binary mode, neither the number of columns nor the offset format changes how a byte is shown: every byte has the same symbol, color and hexadecimal value, even when the character or sequence it belongs to is split between rows.',
     'inputs configurations', 'all inputs x pairs of column counts', TESTS + 'splitting is covered by three examples.', f'{B}segment/segment.py {B}segment/buffer.py {B}formatter/binary.py',
     [('splitting of segments', B + 'segment/segment.py')], 'property-based testing: metamorphic over layouts', '1..70 columns.')
prop('C24', 'The row queue loses and reorders nothing',
     'In any history of appending pieces of parsed data and taking rows out - by byte count or by line, with more data expected or not - the pieces come out in the same order, with the same bytes, text and style, each exactly once, in rows of exactly the requested extent. '
     'Taking out a row that is not complete asks for more data, and when nothing is left the end of data is reported; every row restores the default style, and the sizes reported are true.',
     'histories', 'all histories of appends and removals', TESTS + 'they cover three fixed histories.', f'{B}segment/buffer.py {B}segment/segment.py {B}segment/printer.py {B}segment/sequence_ref.py',
     [('queue of segments and style marks', B + 'segment/buffer.py')], 'model-based (stateful) property-based testing against a list model', 'Up to 14 operations; uses the same interface of the queue as the repository\'s own tests.')
prop('C25', 'The legend is true',
     'Every marker symbol that appears in the output of either mode is listed in the legend with the colors it is displayed with.',
     'inputs configurations', 'all inputs x options', TESTS + 'the legend is not covered.', f'{K}legend.ansi {T}registry.py {K}runner/legend.py', [('pre-rendered legend', K + 'legend.ansi')],
     'property-based testing: differential between the output and the legend', 'Inverse video of escape sequence markers, which the legend does not tell apart, is not compared.')

Q = 'pytermor/'
U = Q + 'util/'
prop('C26', 'Output that cannot be written ends the application cleanly',
     'When whoever reads the output goes away, or the output cannot be written because the device is full, the application ends without a traceback or other messages of the interpreter: silently in the first case (with the error messages it has otherwise, if any), even if the input goes on without an end, and with exit code 1 and a message naming the error in the second. '
     'Everything written until then is exactly the beginning of the regular output.',
     'fault_sequences inputs configurations', 'all inputs x options x special actions x amounts of output taken before the reader leaves', TESTS + 'no failure is provoked.',
     f'{K}app.py {K}console.py', [('exception handler', K + 'app.py')], 'property-based testing with fault injection', 'Output pipes and /dev/full; other errors of the output are not provoked.')
prop('C27', 'An interrupt ends the application cleanly',
     'When the user interrupts the application while it waits for input, it ends successfully, without a traceback or error message in any mode, and everything it has shown by then is exactly the beginning of the regular output: at least every row that is complete in the data taken from the input in full reads (of the size of the read buffer) has been shown, without waiting for the data that follow.',
     'fault_sequences inputs configurations', 'all inputs x options x buffer sizes x sources', TESTS + 'nothing is interrupted.',
     f'{B}reader.py {B}parser/parser.py {B}segment/buffer.py {B}formatter/text.py {B}formatter/binary.py {K}console.py',
     [('interrupt handler', B + 'reader.py'), ('rows are printed as soon as complete', K + 'console.py')], 'property-based testing with real signals sent to the application blocked on a pipe', 'Interrupts outside of waiting for input are not provoked.')
prop('C28', 'Output depends on the input, options and width only',
     'However the application is started - as a module, by its entry point, under another file name, with optimizations, without the site module - and whatever the locale variables, kind of terminal, color preferences, hash seed, height of the terminal, home or working directory are, its output, messages and exit code for the same input, options and number of columns are the same byte by byte; this includes demo, legend, version, help and failures.',
     'inputs configurations', 'all inputs x options x actions x environments', TESTS + 'the application is not started at all.',
     f'{K}__main__.py {K}app.py {K}console.py {K}settings.py {K}runner/', [('entry point', K + '__main__.py'), ('settings', K + 'settings.py')],
     'property-based testing: differential between separate interpreters under random environments', 'Only locales which Python treats as UTF-8 are used (there are no others in the sandbox).')
prop('T01', 'Closing a format restores exactly what was opened',
     'Text wrapped in a format is preceded by the SGR sequence of that format and followed by one that switches off exactly the attributes and colors it set: on a terminal which already has any other formatting active, this formatting is the same before and after, except for the properties the format itself touched, which become default. '
     'This holds for any combination of codes, names, indexed and RGB colors; presets of sequences and formats are the codes they are named after. Any value can be wrapped, None being an empty text.',
     'inputs', 'all lists of SGR parameters x all surrounding styles', 'The doctests show a few presets.', f'{Q}ansi.py', [('closing codes registry', Q + 'ansi.py')],
     'property-based testing: terminal emulation oracle', 'Bold and dim share one closing code.')
prop('T02', 'SGR sequences are values: assembly, addition, comparison',
     'A sequence is assembled to ESC [ codes m with its codes in order (an empty one to an empty string, and the reset one to ESC [ m), which matches the regular expression given for such sequences; adding two gives their codes one after another, associatively, with the empty one neutral, and never changes the operands; they are equal exactly if the codes are equal, and equal ones have equal hashes. A sequence takes no room, and is an extended color exactly if it starts with code 38 or 48 followed by two codes or more. '
     'Names in any case mean their codes; unknown names, arguments of other types and colors outside 0..255 are refused, and explicitly paired sequences are used as given.',
     'inputs histories', 'all lists of codes', 'The doctests show a few presets.', f'{Q}ansi.py', [('sequence class', Q + 'ansi.py')], 'property-based testing: algebraic laws', 'Codes 0..300.')
prop('T03', 'Color approximation finds the nearest color',
     'Looking up an RGB color in the 16-color or 256-color palette gives a color of that palette at the least Euclidean distance in RGB space. It stays so in any history of lookups and registrations of new colors: results are up to date with all colors registered before the lookup, and several results come sorted by distance.',
     'inputs histories', 'all RGB colors x all histories of registrations and lookups', 'One doctest looks up one color (and does not pass).', f'{Q}color.py', [('lookup table and result cache', Q + 'color.py')],
     'model-based property-based testing against brute force over standard palettes', 'Any of equally distant colors is accepted.')
prop('T04', 'Color conversions are exact and mutually inverse',
     'Splitting a color to RGB channels and joining them back gives the same color; HSV channels of a color are the standard ones, within [0, 360), [0, 1] and [0, 1], and lead back to the same color. Colors are displayed as exactly six hexadecimal digits after the prefix (0x by default), unset ones as a label (~ by default); colors are equal exactly if they are of the same kind, value and codes; and values of other types than integers are refused.',
     'inputs', 'all 24-bit colors', 'The doctests convert two colors.', f'{Q}color.py', [('channel conversions', Q + 'color.py')], 'property-based testing: round trip and differential against the standard library', '')
prop('T05', 'Rendered text looks exactly as its style says',
     'When formatting is allowed, every character of a text rendered for a terminal - of any number of lines - is displayed with the colors and attributes of its style and no others, the text itself is unchanged, and the default style is restored after it; colors that the configured color mode does not support are replaced by the nearest ones of the 256 or 16 supported. '
     'When formatting is forbidden, or is left to detection and the output is not a terminal, the text is returned as is.',
     'inputs configurations', 'all styles x texts x color modes x force settings x terminal or not', 'The doctests render one style.', f'{Q}render.py {Q}color.py {Q}ansi.py', [('SGR renderer', Q + 'render.py')],
     'property-based testing: terminal emulation oracle', 'When both kinds of underline are on, either is accepted.')
prop('T06', 'Styles inherit what is unset and never affect one another',
     'A style derived from another one takes exactly the properties left unset from the parent, at any depth; explicitly set ones, False included, are kept. Changing a style - its colors and attributes, swapping or picking its text color (dark on bright backgrounds, bright on dark ones) - never changes its parent or descendants. Styles are equal exactly if all their properties are, unknown names of colors are refused, and presets are never changed; styles are described by their colors and the attributes that are on.',
     'histories', 'all histories of deriving and changing styles', 'The doctests do not derive styles.', f'{Q}render.py', [('cloning of unset attributes', Q + 'render.py')], 'model-based (stateful) property-based testing', '')
prop('T07', 'Styled texts are composed without loss',
     'Text built by any sequence of appending, prepending and adding strings and other texts (itself included) has the content of its parts in the resulting order, the length is the length of that content, and each part keeps its own style when rendered; a later change of a text does not affect the texts it was added to. '
     'Any value can be a text (falsy ones such as zero included), operands of other types than strings and texts are refused, and a text of one part can be formatted as a string would be, with the style kept and the text itself unchanged.',
     'histories', 'all histories of composing texts', 'The doctests compose nothing.', f'{Q}render.py', [('list of runs', Q + 'render.py')], 'model-based (stateful) property-based testing with terminal emulation', 'Whether "+" changes its left operand is left open.')
prop('T08', 'Other output formats say the same as the terminal one',
     'Plain output is the text itself; debug output is the terminal one with visible codes instead of escape sequences; tmux output, interpreted by tmux rules, shows every character with the style and restores the default one; HTML output is a span with the text, class and the style properties of the style, with the colors swapped if inversed, the same in every run. '
     'This holds for all styles and multi-line texts.',
     'inputs configurations', 'all styles x texts x settings x formats', 'The doctests render one style.', f'{Q}render.py', [('renderers', Q + 'render.py')], 'property-based testing: interpreters of each format as an oracle', 'HTML escaping and character encoding are not claimed.')
prop('T09', 'Filters and alignment see through escape sequences',
     'Filters replace exactly what they are for and nothing else: SGR sequences, all CSI sequences, whitespace (keeping line breaks), or non-ASCII bytes, or any pattern of one\'s own in a string or bytes; several ones, classes or objects, are applied in the order given. Aligning a string left, right or centered pads it to the requested visible width, counting everything but SGR sequences, without truncation, the two paddings of a centered string differing at most by one.',
     'inputs', 'all strings with sequences x widths x fill characters', 'The doctests show a few strings.', f'{U}string_filter.py {U}stdlib_ext.py', [('filter regexes', U + 'string_filter.py')], 'property-based testing: strings generated from known parts', '')
prop('T10', 'Auto-length float formatting is exact in length and true in value',
     'A number formatted to a required length takes exactly this length, and represents the value rounded (or, if rounding would not fit, truncated) at the last digit displayed, with exponent form used only if it is allowed, and no more than one position left unused. '
     'When nothing meaningful fits, the result is the overflow marks or only the order of the number, and the number is refused only if it is too big and the exponent form is not allowed.',
     'inputs', 'all finite numbers x lengths 1..12 x exponent form', 'The doctests show seven numbers.', f'{U}auto_float.py', [('precision selection', U + 'auto_float.py')], 'property-based testing: exact rational oracle', '')
prop('T11', 'Values with unit prefixes are true and short',
     'A value formatted with an SI prefix, decimal or binary, multiplied by the prefix equals the original one within the last digit displayed, is at least 1 and not more than the base (for values within the range of prefixes), and takes at most 6 characters plus the unit (binary: 7 plus the unit). '
     'Zero is shown without a prefix, and bytes are never fractional. Values for which there is no prefix are shown with a question mark instead of one (and with the unit), or refused.',
     'inputs', 'all values, those from 1e-24 to 1e27 (binary: 1 to 1024^9) in particular, both signs, with any unit', 'The doctests show seven values.', f'{U}prefixed_unit.py {U}auto_float.py', [('prefix selection loop', U + 'prefixed_unit.py')],
     'property-based testing: exact rational oracle', 'The number shown with a question mark is not checked.')
prop('T12', 'Time deltas are true and fit the length',
     'A time delta formatted for any maximum length from 3 takes at most this length (shorter lengths are refused), being the same as for the longest of the lengths 3, 4, 6 and 10 that fits (10 if no length is given), and stands for the value rounded down to the smallest unit displayed, months being of 30 days and years of 360; a single unit is the largest one that is not greater than the value, and a longer time is never displayed as a shorter one. '
     'The sign is kept where the format supports it (10 characters and more), and overflow is reported only over 99 days (3 characters), 99 years or 999 years (10 characters).',
     'inputs', 'all times up to 1100 years x maximum lengths', 'The doctests show four values.', f'{U}time_delta.py', [('unit selection loop', U + 'time_delta.py')], 'property-based testing: the result is parsed back', '')
prop('T13', 'Padded distribution and digit grouping are exact',
     'Values distributed over a width fill exactly this width, in order, with at least one space between neighbours and gaps that differ at most by one; they are refused exactly if there is not enough space, and the given list is not changed. '
     'Grouping of digits puts the separator between groups of three digits of the integer part and changes nothing else.',
     'inputs', 'all lists of strings x widths x outer padding; all numbers x separators', 'The doctests group two numbers.', f'{Q}render.py {U}__init__.py', [('gap computation', Q + 'render.py')], 'property-based testing: structural oracle', '')
prop('T14', 'Formatters of one\'s own follow their settings',
     'A formatter of values with any prefixes, base, length, separator and unit shows the value divided by the power of the base that its prefix stands for, rounded at the last digit displayed, between 1 and the base (down to zero without a prefix if fractions are left out), within the declared maximum length and without wasting room; out of the range of prefixes it shows question marks or refuses. '
     'A formatter of times with any units and ratios shows the number of the largest unit that is not greater than the time, rounded down, together with the rest in the unit below it while the number is under the threshold of the unit; the sign is kept only if allowed, the plural suffix is used for all numbers but one, times below the first unit are <1 (0 if none, ~0 if negative), those over the limit of the last unit give the message cut to the maximum length, and the result is aligned to the right of the maximum length if asked.',
     'inputs configurations', 'all settings of both formatters x values', 'The doctests use predefined formatters only.', f'{U}prefixed_unit.py {U}time_delta.py', [('prefix selection loop', U + 'prefixed_unit.py'), ('unit selection loop', U + 'time_delta.py')],
     'property-based testing: exact rational oracle and reference model', 'Time units with a limit other than the last one, and a threshold of the first one, are not generated.')

prop('T15', 'Templates are filled in exactly',
     'In a template, each format tag ^{a;b} becomes the SGR sequence of these parameters (numbers or names, in any case; the empty tag becomes the reset), each variable tag :{name} becomes the value given for it, and each comment of one line #{}...{}# disappears; blanks around the content of a tag are ignored. '
     'Everything else stays as it is, in place: ordinary text, things that only look like tags, and values are not interpreted again. A tag that cannot be substituted (unknown name, empty parameter, undefined variable) is kept and one warning for it is written to the standard error output. Variables given later replace those given before.',
     'inputs histories', 'all templates x all sets of variables, one after another', 'Nothing tests the template processor.', 'dev/es7s_tpl_processor.py pytermor/ansi.py', [('filters applied in order', 'dev/es7s_tpl_processor.py')],
     'property-based testing: templates generated together with their expected result', 'Comments of several lines, and tags put together by removing a comment, are not generated.')
prop('T16', 'Terminal helpers leave the terminal as it was',
     'Waiting for a key returns the first character typed, whatever it is, without waiting for Enter and without showing it, and leaves all the settings of the terminal as they were before - also when interrupted while waiting. '
     'The terminal width reported is two columns less than COLUMNS, or than the width of the terminal if that is not set to a positive number, or than 80; the exact width is that number itself.',
     'inputs configurations histories', 'all keys x all terminal settings, one after another; all widths', 'Tests have no terminal.', f'pytermor/common.py {K}common.py', [('mode switched and restored', 'pytermor/common.py'), ('width', K + 'common.py')],
     'property-based testing over pseudo terminals with random settings', 'Signals made by keys, flow control and a bare CR are not generated.')
prop('C29', 'A legend generated from the code is complete and true',
     'Generating the legend from its template succeeds without warnings and leaves no tag unfilled, and every symbol that the application displays for any input and any options (other than ignored classes and colored markers) can be found in the generated legend in the same colors.',
     'inputs configurations', 'all inputs x all options, the generated legend', 'Nothing tests the generator.', f'dev/generate_legend.py dev/legend.tpl.ansi dev/es7s_tpl_processor.py {T}registry.py', [('examples made by the templates themselves', 'dev/generate_legend.py')],
     'property-based testing: every symbol of generated pictures is looked up in the legend made by the generator (run in a scratch copy)', 'As for C25; the exact inverse video of escape sequence markers is not told apart.')
prop('C30', 'What debug mode says is true',
     'In debug mode of any level, the messages describe what happens: where the input comes from; the chunks read, numbered from zero, with their positions and sizes, adding up to the input and none greater than the read buffer; the end of input and the limits; the data being parsed and buffered, with its true amount and (from level 3) contents; '
     'the character class of every byte, at its position in the input; the settings in effect next to the defaults (level 3), with derived ones (level 4); and every line or row once more, with its position, as hexadecimal values and as one safe character per byte. Offsets are in the requested notation, and rules are as wide as the terminal.',
     'inputs configurations', 'all inputs x all options x debug levels x limits x buffer sizes x sources', 'Tests do not run the application.', f'{K}console.py {B}reader.py {B}parser/parser.py {B}parser/buffer.py {B}segment/buffer.py {B}formatter/_abstract.py {B}formatter/text.py {B}formatter/binary.py {T}template_escape.py',
     [('messages with offsets', K + 'console.py'), ('match reports', B + 'parser/parser.py'), ('debug rows', B + 'formatter/_abstract.py'), ('table of settings', K + 'console.py')],
     'property-based testing: the report is parsed and compared with the input, a reference tokenizer and the command line', 'Lists of styles in the state of buffers, and what matched data is replaced with, are not checked; inputs up to 500 bytes.')
prop('C31', 'The help is complete and readable at any width',
     'The help, printed on request whatever the other options and the input are, has the same content - all sections, every option in its short and long form, every word and sign - for every width of the terminal, on a terminal and elsewhere: only line breaks and blanks differ. On a terminal it is formatted, with no control sequence broken or left open; elsewhere the same text is printed. '
     'A malformed command line is answered on the standard error output with the same usage lines and the reason, at any width, and with nothing on the standard output.',
     'inputs configurations', 'all widths x output to terminals and pipes x other options x malformed command lines', 'Tests do not run the application.', f'{K}arghelp.py', [('help formatter', K + 'arghelp.py')],
     'property-based testing: metamorphic over widths and kinds of output', 'The widest form is the reference; whether the descriptions are true is left to the other properties.')

NOT_APPLICABLE = []

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])), ensure_ascii=False) + '\n')
    m = dict(version=1, setup_cmd='python3-vt run.py --list', checks=[
        dict(property=p['id'], quick_cmd=f'python3-vt run.py {p["id"]}', thorough_cmd=f'VERIF_TIER=thorough python3-vt run.py {p["id"]}', technique=p['technique'], level='exploration',
             level_note=('Random exploration with shrinking; nothing is proved beyond the cases tried. ' + p['note']).strip()) for p in P],
        not_applicable=NOT_APPLICABLE, notes='Every check runs the code of /repo as it is in the working tree; no hooks are needed. VERIF_REPO points the checks at another copy (for development only).')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')
