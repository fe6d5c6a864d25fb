"""C24: the queue between the parser and the formatters, driven by random histories against a list model."""
from hypothesis import strategies as st

from vlib import gen, term, view
from vlib.core import check, Violation
from vlib.lib import load
from vlib.term import sgr, DEFAULT
from vlib.view import need

STYLES = [[], [], [31], [32], [36], [96], [1], [31, 7], [38, 5, 102], [38, 5, 255, 48, 5, 16], [4, 48, 5, 16], [38, 2, 1, 2, 3], [47, 30], [0], [94, 7], [2, 3]]
_alpha = 'abc·▯θ_0 é世'


@st.composite
def _segment(draw, binary):
    style = draw(st.integers(0, len(STYLES) - 1))
    if binary:
        raw = draw(st.binary(min_size=1, max_size=9))
        return [style, raw, ''.join(draw(st.lists(st.sampled_from(_alpha), min_size=len(raw), max_size=len(raw))))]
    k = draw(st.integers(0, 4))
    if k == 0:
        return [style, b'\n', draw(st.sampled_from(['↵\n', '\n', '↵\n']))]
    return [style, draw(st.binary(min_size=1, max_size=5)), ''.join(draw(st.lists(st.sampled_from(_alpha), max_size=6)))]


@st.composite
def _history(draw):
    binary = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.integers(0, 2))
        if k == 0 or not ops:
            segs = []
            for s in draw(st.lists(_segment(binary), max_size=5)):
                segs.append(s)
                if not binary and '\n' not in s[2] and draw(st.integers(0, 2)) == 0:
                    segs.append([draw(st.integers(0, len(STYLES) - 1)), b'', draw(st.sampled_from(['[31m', '⡇', 'F88･B16', 'A']))])     # marker details
            ops.append(['attach', segs])
        else:
            ops.append(['detach', draw(st.one_of(st.integers(1, 6), st.integers(1, 30))), draw(st.integers(0, 3)) == 3])
    return {'binary': binary, 'ops': ops}


@st.composite
def _parsed(draw):
    """Data that goes through the parser, in pieces, before it is taken out of the queue."""
    d = draw(gen.data(12))
    o = draw(gen.opts())
    cuts = sorted(draw(st.lists(st.integers(0, len(d)), max_size=4)))
    return {'parse': d, 'cuts': cuts, 'binary': o['binary'], 'take': draw(st.sampled_from([1, 2, 3, 5, 8, 16])), 'flags': [*('focus_' + c for c in o['focus']), *('ignore_' + c for c in o['ignore'])],
            'o': {'marker': o.get('marker', 0), 'decode': o.get('decode', False), 'no_separators': o.get('separators') is False, 'color_markers': o['color_markers']}}


def _parse(case, ctx):
    """What is parsed keeps the bytes: taken out of the queue, they are the input."""
    settings = load('kolombos.settings').SettingsManager
    wait = load('kolombos.byteio').WaitRequest
    settings.init()
    try:
        seg, par, tpl = load('kolombos.byteio.segment'), load('kolombos.byteio.parser'), load('kolombos.byteio.template')
        for name, value in [('binary', case['binary']), ('text', not case['binary']), *case['o'].items(), *((f, True) for f in case['flags'])]:
            if not hasattr(settings.app_settings, name):
                raise AttributeError(name)
            setattr(settings.app_settings, name, value)
        raw, queue = par.ParserBuffer(), seg.SegmentBuffer()
        parser = par.Parser(raw, queue, tpl.TemplateRegistry())
        hexp = seg.SegmentPrinter(apply_sgr=False, encode_sgr=False, format_fn=lambda s: ''.join(f'{b:02x}' for b in s.raw))
    except (TypeError, AttributeError):      # the parts are put together in another way
        ctx.label('cannot be driven')
        return
    data, out, offset, rows = case['parse'], '', 0, 0
    try:
        bounds = [0, *case['cuts'], len(data)]
        for i in range(len(bounds) - 1):
            last = i == len(bounds) - 2
            piece = data[bounds[i]:bounds[i + 1]]
            raw.append_raw(piece, last)
            parser.parse(offset)
            offset += len(piece)
            while True:
                try:
                    got = queue.detach_bytes(case['take'], last, [hexp])[0] if case['binary'] else queue.detach_line(last, [hexp])[0]
                except (wait, EOFError):
                    break
                out += got
                rows += 1
    finally:
        settings.init()
    need(out == data.hex(), lambda: f'parsed data is {out}, the input {data.hex()}')
    ctx.nontrivial(rows >= 2 and len(case['cuts']) >= 1)
    ctx.label('parsed')


def _cells(text):
    return [(c, s) for r in term.parse(text).rows for c, s in list(r) + ([('\n', None)] if r.terminated else [])]


@check('C24', lambda: st.integers(0, 4).flatmap(lambda k: _parsed() if k == 4 else _history()), quick=9000, thorough=200000,
       rule='random history of appending segments and taking out rows (by byte count or by line, with and without end of input) against a list model, or of pieces of input going through the parser first (what is taken out put together is the input); '
            'non-trivial: at least three successful removals, one of them inside a segment or spanning several')
def c24(case, ctx):
    if 'parse' in case:
        return _parse(case, ctx)
    pt = load('pytermor')
    seg = load('kolombos.byteio.segment')
    wait = load('kolombos.byteio').WaitRequest
    load('kolombos.settings').SettingsManager.init()
    hexp = seg.SegmentPrinter(apply_sgr=True, encode_sgr=False, format_fn=lambda s: ''.join(f'{b:02x}' for b in s.raw))
    plain = seg.SegmentPrinter(apply_sgr=False, encode_sgr=False, format_fn=lambda s: ''.join(f'{b:02x}' for b in s.raw))
    proc = seg.SegmentPrinter(apply_sgr=True, encode_sgr=False, format_fn=lambda s: s.processed)
    buf = seg.SegmentBuffer()
    model = []       # segments: [style, raw, processed]
    good = inside = 0
    for n, op in enumerate(case['ops']):
        what = f'operation {n + 1}'
        if op[0] == 'attach':
            buf.attach(*[seg.Segment(pt.SequenceSGR(*STYLES[i]), 'X', raw, text) for i, raw, text in op[1]])
            model += [[sgr(*STYLES[i]), raw, text] for i, raw, text in op[1]]
        else:
            size, force = op[1], op[2]
            total = sum(len(s[1]) for s in model)
            expect = None
            if case['binary']:
                if total < size and not force:
                    exc = wait
                elif total == 0:
                    exc = EOFError
                else:
                    exc, expect, left = None, [], size
                    while model and left:
                        s = model[0]
                        if len(s[1]) <= left:
                            expect.append(model.pop(0))
                            left -= len(s[1])
                        else:
                            expect.append([s[0], s[1][:left], s[2][:left]])
                            model[0] = [s[0], s[1][left:], s[2][left:]]
                            left = 0
                            inside += 1
            else:
                end = next((i for i, s in enumerate(model) if '\n' in s[2]), None)
                if total == 0:
                    exc = EOFError
                elif end is None and not force:
                    exc = wait
                else:
                    exc = None
                    cut = len(model) if end is None else end + 1
                    expect, model = model[:cut], model[cut:]
            try:
                if case['binary']:
                    got = buf.detach_bytes(size, force, [hexp, plain, proc])
                else:
                    got = buf.detach_line(force, [hexp, plain, proc])
            except (wait, EOFError) as e:
                need(exc is not None and isinstance(e, exc), lambda: f'{what}: {type(e).__name__}, expected {exc.__name__ if exc else "data"}')
            else:
                need(exc is None, lambda: f'{what}: got data {got}, expected {exc.__name__}')
                good += 1
                inside += len(expect) > 1
                h, p, t = got
                view.same_cells([c for c in _cells(h)], [(c, s[0]) for s in expect for b in s[1] for c in f'{b:02x}'], f'{what}: hex form')
                need(p == ''.join(s[1].hex() for s in expect), lambda: f'{what}: unstyled form is {p!r}')
                view.same_cells([(c, s) for c, s in _cells(t)], [(c, None if c == '\n' else s[0]) for s in expect for c in s[2]], f'{what}: text form')
                for x in (h, t):
                    need(term.parse(x).final_style == DEFAULT, lambda: f'{what}: row leaves a style open: {x!r}')
                ln = sum(len(s[1]) for s in expect)
                need(buf.last_detached_data_len == ln, lambda: f'{what}: reported size {buf.last_detached_data_len}, taken {ln}')
        rest = sum(len(s[1]) for s in model)
        need(buf.data_len == rest, lambda: f'{what}: {buf.data_len} bytes left, expected {rest}')
    ctx.nontrivial(good >= 3 and inside >= 1)
    ctx.label('binary' if case['binary'] else 'text')
